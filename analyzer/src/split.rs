//! C25, C06: how a query string becomes words, conditions and alternatives.
//! The parsing of a single word is replaced by named atoms.
use crate::anchors::*;
use crate::interp::*;
use crate::leaf::*;
use crate::mat::*;
use crate::query::*;
use crate::report::*;
use crate::roots::*;
use crate::sem::*;
use crate::tables::*;
use crate::term::*;
use crate::twins::alike;
use crate::val::*;
use rustc_public::mir::mono::*;
use rustc_public::ty::*;
use std::rc::Rc;

pub const WORDS: &str = "words are what unescaped spaces separate, and an escaped space is part of its word";
pub const GROUPS: &str = "a | joins the words around it as alternatives, every other word starts a condition of its own";
pub const KEPT_AS: &str = "a parsed word enters the query unchanged";
pub const ROOM: &str = "a query is parsed without reaching past the buffers, whatever they hold";
pub const WHOLE: &str = "outside extended search the text of the query is the whole query, character by character";
pub const PLAIN: &str = "outside extended search the query is one fuzzy pattern that is not negated";

/// the functions that parse a string into a query: (parser, str) -> query
fn parsers(q: &Q) -> Vec<Instance> {
    q.kit
        .w
        .fns
        .iter()
        .filter(|f| {
            let (Some((a, _)), Some(r)) = (sig(f), ret(f)) else { return false };
            a.len() == 2 && is_str(a[1]) && contains(r, q.mode) && pointee(a[0]).is_some()
        })
        .cloned()
        .collect()
}
fn vec_fields(t: Ty) -> Vec<(String, Ty)> {
    field_tys(t, 0).into_iter().filter(|(_, t)| adt_last(*t) == "Vec").collect()
}
/// what each word becomes: dropped, or a pattern with unknown flags
fn word_hook(q: &Q) -> Hook {
    let pf = q.kit.pf.clone();
    let fns: Vec<String> = q.kit.w.fns.iter().filter(|f| matches!((sig(f), ret(f)), (Some((a, _)), Some(r)) if a.len() == 1 && char_slice(a[0]) && adt_last(r) == "Option" && type_arg(r, 0).is_some_and(|t| same(t, pf.ty)))).map(def_path).collect();
    Rc::new(move |it: &mut Interp, _: &Instance, name: &str, args: &[Val], st: &State| {
        if !fns.iter().any(|f| f == name) {
            return None;
        }
        let mut out = vec![];
        for (s, cs) in contents(it, st.clone(), &args[0])? {
            let k = s.ghost.keys().filter(|k| k.starts_with("word")).count();
            let a: Vec<Arg> = cs.iter().map(|c| Arg::L(c.clone())).collect();
            let mut s = s;
            let mut p = mat(&mut s, pf.ty, "word", &a);
            if let Val::Agg(fs) = &mut p {
                Rc::make_mut(fs)[pf.text] = args[0].clone();
            }
            let flag = Lin::s(app("kept", a, Some(0), Some(1), 0));
            // C11 decides what becomes of a word with something other than operators
            let other = |c: &Lin| match (c.is_const(), c.single().map(bounds)) {
                (Some(c), _) => c == '|' as i128 || c == '\\' as i128,
                (_, Some((Some(97), Some(122)))) => true,
                _ => false,
            };
            if cs.iter().any(other) {
                s.ghost.insert(format!("word{k:03}"), Val::agg(vec![Val::agg(cs.iter().map(|c| Val::Int(c.clone())).collect()), Val::bool(true), p.clone()]));
                out.push((s, Val::some(p)));
                continue;
            }
            for kept in 0..=1 {
                for mut s in it.assume(s.clone(), &eqk(&flag, kept)) {
                    s.ghost.insert(format!("word{k:03}"), Val::agg(vec![Val::agg(cs.iter().map(|c| Val::Int(c.clone())).collect()), Val::bool(kept == 1), p.clone()]));
                    out.push((s, if kept == 1 { Val::some(p.clone()) } else { Val::none() }));
                }
            }
        }
        Some(out)
    })
}
/// the characters of a slice of known length
fn contents(it: &mut Interp, st: State, v: &Val) -> Option<Vec<(State, Vec<Lin>)>> {
    let Val::Ptr(p) = v else { return None };
    let (_, n) = p.view.clone()?;
    let n = n.is_const()?;
    let mut cur = vec![(st, vec![])];
    for i in 0..n {
        let mut next = vec![];
        for (s, cs) in cur {
            for (s, v) in it.read(s, &p.elem(&Lin::k(i))) {
                let mut cs = cs.clone();
                cs.push(int(&v)?);
                next.push((s, cs));
            }
        }
        cur = next;
    }
    Some(cur)
}
/// the values of a slice of known length
fn values(it: &mut Interp, s: &State, v: &Val) -> Option<Vec<Val>> {
    let Val::Ptr(p) = v else { return None };
    let n = p.view.clone()?.1.is_const()?;
    (0..n)
        .map(|i| {
            let mut r = it.read(s.clone(), &p.elem(&Lin::k(i)));
            (r.len() == 1).then(|| r.pop().unwrap().1)
        })
        .collect()
}

/// texts of up to `max` characters
pub fn words(rep: &mut Rep, max: usize) {
    let Some(q) = Q::new(rep) else { return };
    let mut n = 0;
    for f in parsers(&q) {
        // the one that yields conditions
        for grow in [false, true] {
            for len in 0..=max {
                if (!grow || len <= 5) && mine() {
                    n += split_query(rep, &q, &f, &Text::Widths(vec![1; len]), if grow { 1 } else { 64 }, false) as usize;
                }
            }
            for widths in [&[2u8, 1][..], &[1, 2, 1], &[3, 1, 1], &[1, 1, 4, 1], &[1, 2, 1, 1], &[2, 1, 1, 2], &[1, 1, 2, 1, 1]] {
                if widths.len() <= max && mine() {
                    n += split_query(rep, &q, &f, &Text::Widths(widths.to_vec()), if grow { 1 } else { 64 }, false) as usize;
                }
            }
        }
        if split_query(&mut Rep::default(), &q, &f, &Text::Given("ab cd"), 64, false) {
            for (t, room) in given_queries(max) {
                if mine() {
                    n += split_query(rep, &q, &f, &Text::Given(&t), room, true) as usize;
                }
            }
        }
    }
    if n == 0 && std::env::var("NORMCHECK_SHARD").is_err() {
        rep.err("no function parses a query into conditions".into());
    }
}
enum Text<'a> {
    /// any characters of these widths
    Widths(Vec<u8>),
    Given(&'a str),
}
/// (query, size of the buffers): longer queries, in every arrangement of words
/// and separators
fn given_queries(max: usize) -> Vec<(String, i128)> {
    let word = |k: usize, n: usize| -> String { (0..n).map(|i| (b'a' + ((k * 7 + i * 3 + k / 26) % 26) as u8) as char).collect() };
    let seps = [" ", " | ", "\\ ", "  ", "|", " |", "| ", " | | ", "\\", " \\ "];
    let mut out = vec![];
    let most = if max > 6 { 4 } else { 3 };
    for n in 1..=most {
        for mut code in 0..seps.len().pow(n) {
            let mut t = word(0, 1);
            for k in 1..=n as usize {
                t.push_str(seps[code % seps.len()]);
                code /= seps.len();
                t.push_str(&word(k, 1 + k % 3));
            }
            out.push((t, 64));
        }
    }
    for (a, b) in [(" ", " "), ("", " "), ("  ", ""), ("| ", ""), ("", " |"), ("| ", " |"), ("\\ ", "\\ "), ("", "\\"), ("", " \\"), ("漢", "é"), ("é ", " 漢"), ("", "| ")] {
        for sep in [" ", " | ", "\\ ", "é "] {
            out.push((format!("{a}ab{sep}cde{sep}f{sep}gh{sep}i{b}"), 64));
        }
    }
    for n in [2, 3, 5, 8, 20, 32, 33, 64, 65, 100, 128, 129] {
        for len in [1, 2, 5] {
            for sep in [&[" "][..], &[" | "], &[" ", " | "], &[" ", " ", " | "], &["\\ "], &["\\ ", " "]] {
                if n * len > 260 {
                    continue;
                }
                let mut t = word(0, len);
                for k in 1..n {
                    t.push_str(sep[k % sep.len()]);
                    t.push_str(&word(k, len));
                }
                for room in [64, 128] {
                    out.push((t.clone(), room));
                }
            }
        }
    }
    for n in [63, 64, 65, 128, 129, 300] {
        out.push((word(3, n), 64));
        out.push((format!("{} {}", word(3, n), word(5, n / 2)), 64));
        out.push((word(3, n).replace('c', "é"), 64));
    }
    out
}
/// false if the function never yields conditions
fn split_query(rep: &mut Rep, q: &Q, f: &Instance, text: &Text, room: i128, known: bool) -> bool {
    let t0 = std::time::Instant::now();
    fresh_world();
    let at = arg_tys(f);
    let widths: Vec<u8> = match text {
        Text::Widths(w) => w.clone(),
        Text::Given(t) => t.chars().map(|c| c.len_utf8() as u8).collect(),
    };
    let bytes: i128 = widths.iter().map(|x| *x as i128).sum();
    match text {
        Text::Widths(w) => set_layout("a1", w),
        Text::Given(t) => set_text("a1", &t.chars().collect::<Vec<_>>()),
    }
    if widths.iter().all(|x| *x == 1) {
        set_ascii("a1", true);
    }
    for (name, _) in vec_fields(strip_refs(at[0])) {
        pin(&format!("a0.{name}.len"), room);
    }
    let r = run_pre_with(f, vec![word_hook(q)], 60000, &|_| Cond::T, |it| {
        it.opaque_ty.clear();
        it.peel = 40;
        if let Text::Given(_) = text {
            it.peel = 1000;
            it.deadline = std::time::Instant::now() + std::time::Duration::from_secs(10);
        }
    });
    let Val::Ptr(Ptr { base: Base::Bytes(o), .. }) = &r.args[1] else { return false };
    let o = *o;
    let how = format!("queries of {} characters{}{}", widths.len(), if widths.iter().all(|x| *x == 1) { "".into() } else { format!(", {bytes} bytes") }, if room == 1 { " in small buffers" } else { "" });
    let how = match text {
        Text::Given(t) => format!("the query {:?} of {} characters", t.chars().take(40).collect::<String>(), widths.len()),
        _ => how,
    };
    let wher = loc(f);
    let mode = |v: &Val| find(v, ret(f).unwrap(), q.mode).cloned();
    let ext = r.rets.is_empty() || r.rets.iter().any(|(_, v)| matches!(mode(v), Some(Val::Enum(d, _)) if d.is_const() != Some(q.one as i128)));
    if !ext && !known {
        return false;
    }
    rep.absorb(&r.it);
    let mut it = r.it;
    if std::env::var("TIMES").is_ok() {
        eprintln!("{how}: {} returns {} steps {:?}", r.rets.len(), it.steps, t0.elapsed());
    }
    let mut t = Tally::new(rep);
    for e in &it.events {
        if e.rule.starts_with("index") || e.rule.starts_with("slice") {
            t.add(e.verdict, ROOM, &format!("{} {how}", e.key), &e.loc, || e.detail.clone());
        }
    }
    if it.overflow || r.rets.is_empty() {
        t.add(Verdict::Unproven, WORDS, &how, &wher, || "the analysis gave up".into());
    }
    for (s, v) in &r.rets {
        let when = |s: &State| format!("{} when {}", show_val(v), show_num(&s.num));
        let Some(Val::Enum(d, vs)) = mode(v) else {
            t.add(Verdict::Unproven, GROUPS, &how, &wher, || when(s));
            continue;
        };
        let single = d.is_const() == Some(q.one as i128);
        for (s, ws) in reference(&it, s.clone(), o, widths.len()) {
            let show = |ws: &[Vec<Lin>]| format!("{ws:?}");
            // what became of each word
            let calls: Vec<(Vec<Lin>, bool, Val)> = s
                .ghost
                .iter()
                .filter(|(k, _)| k.starts_with("word"))
                .filter_map(|(_, v)| {
                    let Val::Agg(f) = v else { return None };
                    let Val::Agg(cs) = &f[0] else { return None };
                    Some((cs.iter().filter_map(int).collect(), f[1] == Val::bool(true), f[2].clone()))
                })
                .collect();
            // equal words are parsed equally
            let equal = |a: &[Lin], b: &[Lin]| a.len() == b.len() && it.entails(&s.num, &Cond::And(a.iter().zip(b).map(|(a, b)| eql(a, b)).collect()).norm());
            if calls.iter().enumerate().any(|(i, a)| calls[..i].iter().any(|b| a.1 != b.1 && equal(&a.0, &b.0))) {
                continue;
            }
            let mut groups: Vec<Vec<(Vec<Lin>, Val)>> = vec![];
            let mut join = false;
            let mut lost = false;
            for w in &ws {
                if let [c] = &w[..] {
                    if it.entails(&s.num, &eqk(c, '|' as i128)) {
                        join = true;
                        continue;
                    }
                }
                let is = |c: &Vec<Lin>| if c.len() == w.len() { Cond::And(c.iter().zip(w).map(|(a, b)| eql(a, b)).collect()).norm() } else { Cond::F };
                let v = it.strict(&s, &Cond::Or(calls.iter().map(|c| is(&c.0)).collect()).norm());
                t.add(v, WORDS, &how, &wher, || format!("the words are {}, parsed {:?} when {}", show(&ws), calls.iter().map(|c| &c.0).collect::<Vec<_>>(), show_num(&s.num)));
                let Some(c) = calls.iter().find(|c| it.entails(&s.num, &is(&c.0))) else {
                    lost = true;
                    continue;
                };
                if !c.1 {
                    continue;
                }
                match groups.last_mut() {
                    Some(g) if join => g.push((w.clone(), c.2.clone())),
                    _ => groups.push(vec![(w.clone(), c.2.clone())]),
                }
                join = false;
            }
            if lost {
                continue;
            }
            // what the query holds
            let got: Option<Vec<Vec<Val>>> = if single {
                vs.get(&q.one).map(|p| vec![vec![p[0].clone()]])
            } else {
                (|| {
                    let cs = values(&mut it, &s, vs.get(&q.ext)?.first()?)?;
                    cs.iter()
                        .map(|c| {
                            let Val::Agg(fs) = c else { return None };
                            values(&mut it, &s, fs.iter().find(|f| matches!(f, Val::Ptr(_)))?)
                        })
                        .collect()
                })()
            };
            let Some(got) = got else {
                t.add(Verdict::Unproven, GROUPS, &how, &wher, || when(&s));
                continue;
            };
            let shape = |g: &[usize]| format!("{g:?}");
            let (a, b): (Vec<usize>, Vec<usize>) = (groups.iter().map(|g| g.len()).collect(), got.iter().map(|g| g.len()).collect());
            t.add(if a == b { Verdict::Proved } else { it.strict(&s, &Cond::F) }, GROUPS, &how, &wher, || format!("{} for the words {} instead of {}, when {}", shape(&b), show(&ws), shape(&a), show_num(&s.num)));
            if a != b {
                continue;
            }
            let pf = &q.kit.pf;
            for ((w, p), g) in groups.iter().flatten().zip(got.iter().flatten()) {
                let (Val::Agg(p), Val::Agg(g)) = (p, g) else {
                    t.add(Verdict::Unproven, KEPT_AS, &how, &wher, || when(&s));
                    continue;
                };
                let mut c = vec![];
                let mut ok = true;
                for i in 0..p.len() {
                    if i == pf.text {
                        match contents(&mut it, s.clone(), &g[i]).filter(|r| r.len() == 1) {
                            Some(r) if r[0].1.len() == w.len() => c.extend(r[0].1.iter().zip(w).map(|(a, b)| eql(a, b))),
                            Some(_) => c.push(Cond::F),
                            None => ok = false,
                        }
                    } else if p[i] != g[i] {
                        match alike(&p[i], &g[i]) {
                            Some(x) => c.push(x),
                            None => ok = false,
                        }
                    }
                }
                if single {
                    // a single pattern is searched as a fuzzy one
                    let fuzzy = variant_names(pf.kind_ty).iter().position(|n| kind_of(n) == Some(0));
                    match (int(&g[pf.kind]), fuzzy, inverse(&g[pf.inverse])) {
                        (Some(k), Some(z), Some(i)) => c.extend([eqk(&k, z as i128), i.not()]),
                        _ => ok = false,
                    }
                }
                let v = if ok { it.strict(&s, &Cond::And(c).norm()) } else { Verdict::Unproven };
                t.add(v, KEPT_AS, &how, &wher, || format!("{} for {}, word {w:?}, when {}", show_val(&Val::Agg(g.clone())), show_val(&Val::Agg(p.clone())), show_num(&s.num)));
            }
        }
    }
    t.done();
    true
}
/// the words of a text, in every way its characters can be spaces, backslashes
/// and bars
fn reference(it: &Interp, s: State, o: O, n: usize) -> Vec<(State, Vec<Vec<Lin>>)> {
    struct At {
        s: State,
        words: Vec<Vec<Lin>>,
        cur: Option<Vec<Lin>>,
        /// the previous character is a backslash of this word
        esc: bool,
    }
    let mut cur = vec![At { s, words: vec![], cur: None, esc: false }];
    for k in 0..n {
        let c = ch(o, &Lin::k(k as i128));
        let mut next = vec![];
        for a in cur {
            let (sp, other) = split(it, vec![a.s.clone()], &eqk(&c, ' ' as i128));
            for s in sp {
                let (mut words, mut w) = (a.words.clone(), a.cur.clone());
                if a.esc {
                    let w = w.as_mut().unwrap();
                    w.pop();
                    w.push(Lin::k(' ' as i128));
                } else {
                    words.extend(w.take());
                }
                next.push(At { s, words, cur: w, esc: false });
            }
            let (bs, plain) = split(it, other, &eqk(&c, '\\' as i128));
            for (v, esc) in [(bs, true), (plain, false)] {
                for s in v {
                    let mut w = a.cur.clone().unwrap_or_default();
                    w.push(c.clone());
                    next.push(At { s, words: a.words.clone(), cur: Some(w), esc });
                }
            }
        }
        cur = next;
    }
    // lone characters that may be bars
    let mut out = vec![];
    for a in cur {
        let mut words = a.words;
        words.extend(a.cur);
        let mut states = vec![a.s];
        for w in &words {
            if let [c] = &w[..] {
                let (y, n) = split(it, states, &eqk(c, '|' as i128));
                states = y.into_iter().chain(n).collect();
            }
        }
        out.extend(states.into_iter().map(|s| (s, words.clone())));
    }
    out
}
/// C06
pub fn plain(rep: &mut Rep) {
    let Some(q) = Q::new(rep) else { return };
    let mut n = 0;
    // the parser that never splits a query
    let single = |f: &Instance| {
        fresh_world();
        set_layout("a1", &[1, 1, 1]);
        set_ascii("a1", true);
        for (name, _) in vec_fields(strip_refs(arg_tys(f)[0])) {
            pin(&format!("a0.{name}.len"), 64);
        }
        let r = run_pre_with(f, vec![word_hook(&q)], 4000, &|_| Cond::T, |it| {
            it.opaque_ty.clear();
            it.peel = 40;
        });
        r.rets.iter().all(|(_, v)| matches!(find(v, ret(f).unwrap(), q.mode), Some(Val::Enum(d, _)) if d.is_const() == Some(q.one as i128)))
    };
    for f in parsers(&q) {
        if !single(&f) && !def_path(&f).contains("not_extended") {
            continue;
        }
        n += 1;
        if mine() {
            plain_query(rep, &q, &f, None);
        }
        for (w, room) in some_texts() {
            if mine() {
                plain_query(rep, &q, &f, Some((&w, room)));
            }
        }
    }
    if n == 0 {
        rep.err("no function parses a query without extended search".into());
    }
}
fn plain_query(rep: &mut Rep, q: &Q, f: &Instance, text: Option<(&[u8], i128)>) {
    fresh_world();
    if let Some((w, room)) = text {
        set_widths("a1", w);
        for (name, _) in vec_fields(strip_refs(arg_tys(f)[0])) {
            pin(&format!("a0.{name}.len"), room);
        }
    }
    let r = run_pre_with(f, vec![word_hook(q)], 400, &|_| Cond::T, |it| {
        it.opaque_ty.clear();
        if text.is_some() {
            it.peel = 600;
        }
    });
    let mode = |v: &Val| find(v, ret(f).unwrap(), q.mode).cloned();
    rep.absorb(&r.it);
    if std::env::var("TIMES").is_ok() {
        eprintln!("{text:?}: {} returns {} steps", r.rets.len(), r.it.steps);
    }
    let Val::Ptr(Ptr { base: Base::Bytes(o), .. }) = &r.args[1] else { return };
    let (how, wher) = (format!("{}{}", def_path(f), text.map_or(String::new(), |(w, _)| format!(" of {} characters", w.len()))), loc(f));
    let pf = &q.kit.pf;
    let mut it = r.it;
    let mut t = Tally::new(rep);
    for (s, v) in &r.rets {
        let Some(Val::Enum(d, vs)) = mode(v) else {
            t.add(Verdict::Unproven, PLAIN, &how, &wher, || show_val(v));
            continue;
        };
        let one = it.strict(s, &eqk(&d, q.one as i128));
        t.add(one, PLAIN, &format!("one pattern: {how}"), &wher, || format!("{} when {}", show_val(v), show_num(&s.num)));
        if one != Verdict::Proved {
            continue;
        }
        let Some(Val::Agg(p)) = vs.get(&q.one).and_then(|x| x.first()) else {
            t.add(Verdict::Unproven, PLAIN, &how, &wher, || show_val(v));
            continue;
        };
        whole_text(&mut t, &mut it, s, &p[pf.text], *o, WHOLE, &how, &wher);
        let fuzzy = variant_names(pf.kind_ty).iter().position(|n| kind_of(n) == Some(0));
        let v = match (int(&p[pf.kind]), fuzzy, inverse(&p[pf.inverse])) {
            (Some(k), Some(z), Some(i)) => it.strict(s, &Cond::And(vec![eqk(&k, z as i128), i.not()]).norm()),
            _ => Verdict::Unproven,
        };
        t.add(v, PLAIN, &how, &wher, || format!("{} when {}", show_val(&Val::Agg(p.clone())), show_num(&s.num)));
    }
    t.done();
}
/// (widths of the characters, size of the buffers) of some texts
pub fn some_texts() -> Vec<(Vec<u8>, i128)> {
    let mut out = vec![];
    for n in 0..=6 {
        out.push((vec![1; n], 64));
        out.push((vec![1; n], 1));
    }
    for w in [&[2u8][..], &[3], &[4], &[3, 1], &[1, 3], &[1, 2, 1], &[2, 3, 4], &[4, 4, 2, 1], &[1, 1, 3, 3]] {
        out.push((w.to_vec(), 64));
        out.push((w.to_vec(), 2));
    }
    for n in [64, 65, 128, 129, 255, 257, 300] {
        for cycle in [&[1u8][..], &[1, 1, 1, 1, 1, 1, 3], &[2], &[3, 1]] {
            for room in [64, 128] {
                let w: Vec<u8> = cycle.iter().copied().cycle().take(n).collect();
                out.push((w, room));
            }
        }
    }
    out
}
/// the text `name` has characters of these widths: those of long texts are given
pub fn set_widths(name: &str, w: &[u8]) {
    if w.len() > 6 {
        let c = |(k, w): (usize, &u8)| {
            let k = k as u32;
            char::from_u32(match w {
                1 => 97 + k % 26,
                2 => 0xe0,
                3 => 0x6f22,
                _ => 0x1f600,
            })
            .unwrap()
        };
        set_text(name, &w.iter().enumerate().map(c).collect::<Vec<_>>());
        return;
    }
    set_layout(name, w);
    if w.iter().all(|x| *x == 1) {
        set_ascii(name, true);
    }
}
/// is the slice `v` exactly the characters of the text `o`
#[allow(clippy::too_many_arguments)]
pub fn whole_text(t: &mut Tally, it: &mut Interp, s: &State, v: &Val, o: O, rule: &str, how: &str, wher: &str) {
    let when = |s: &State| format!("{} when {}", show_val(v), show_num(&s.num));
    let Val::Ptr(p) = v else {
        t.add(Verdict::Unproven, rule, how, wher, || when(s));
        return;
    };
    let Some((_, n)) = &p.view else { return };
    t.add(it.strict(s, &eql(n, &nchars(o))), rule, &format!("length: {how}"), wher, || when(s));
    if let (Some(len), true) = (nchars(o).is_const(), n.is_const() == nchars(o).is_const()) {
        // each of the characters
        let mut c = vec![];
        for k in 0..len {
            let mut r = it.read(s.clone(), &p.elem(&Lin::k(k)));
            match (r.len(), r.pop().and_then(|x| int(&x.1))) {
                (1, Some(l)) => c.push(eql(&l, &ch(o, &Lin::k(k)))),
                _ => {
                    t.add(Verdict::Unproven, rule, &format!("characters: {how}"), wher, || format!("character {k} of {}", when(s)));
                    return;
                }
            }
        }
        t.add(it.strict(s, &Cond::And(c).norm()), rule, &format!("characters: {how}"), wher, || when(s));
        return;
    }
    // any of the characters
    let i = Lin::s(app("some position", vec![], Some(0), Some(i64::MAX as i128), 0));
    for s in it.assume(s.clone(), &ge(&nchars(o).plus(-1), &i)) {
        for s in it.assume(s, &ge(&n.plus(-1), &i)) {
            for (s, v) in it.read(s, &p.elem(&i)) {
                let v2 = match int(&v) {
                    Some(c) => it.strict(&s, &eql(&c, &ch(o, &i))),
                    None => Verdict::Unproven,
                };
                t.add(v2, rule, &format!("characters: {how}"), wher, || format!("character {i:?} is {} when {}", show_val(&v), show_num(&s.num)));
            }
        }
    }
}
