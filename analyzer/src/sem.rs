//! Checks of the query language and of the matchers: every returned abstract
//! state is compared, case by case, with what the property says.
use crate::anchors::*;
use crate::interp::*;
use crate::mat::*;
use crate::report::*;
use crate::roots::*;
use crate::tables::*;
use crate::term::*;
use crate::val::*;
use rustc_public::mir::mono::*;
use rustc_public::ty::*;

/// the states of `v` in which `c` holds, and those in which it does not
pub fn split(it: &Interp, v: Vec<State>, c: &Cond) -> (Vec<State>, Vec<State>) {
    let (mut y, mut n) = (vec![], vec![]);
    for s in v {
        // alternatives may overlap: what is known already needs none
        match (it.entails(&s.num, c), it.entails(&s.num, &c.not())) {
            (true, true) => continue,
            (true, _) => y.push(s),
            (_, true) => n.push(s),
            _ => {
                y.extend(Interp::assume_num(&s.num, c).into_iter().map(|m| State { num: m, ..s.clone() }));
                n.extend(Interp::assume_num(&s.num, &c.not()).into_iter().map(|m| State { num: m, ..s.clone() }));
            }
        }
    }
    y.retain(|s| s.num.feasible());
    n.retain(|s| s.num.feasible());
    (y, n)
}
pub fn implies(a: &Cond, b: &Cond) -> Cond {
    Cond::Or(vec![a.not(), b.clone()]).norm()
}
pub fn iff(a: &Cond, b: &Cond) -> Cond {
    Cond::And(vec![implies(a, b), implies(b, a)]).norm()
}
pub fn eqk(l: &Lin, k: i128) -> Cond {
    Cond::Eq(l.plus(-k)).norm()
}
pub fn eql(a: &Lin, b: &Lin) -> Cond {
    Cond::Eq(a.sub(b)).norm()
}
pub fn ge(a: &Lin, b: &Lin) -> Cond {
    Cond::Ge(a.sub(b)).norm()
}
pub fn int(v: &Val) -> Option<Lin> {
    match v {
        Val::Int(l) => Some(l.clone()),
        Val::Bool(Cond::T) => Some(Lin::k(1)),
        Val::Bool(Cond::F) => Some(Lin::k(0)),
        Val::Enum(d, _) => Some(d.clone()),
        _ => None,
    }
}
/// obligations of one rule are merged per key: worst verdict wins
pub struct Tally<'a> {
    pub rep: &'a mut Rep,
    m: std::collections::BTreeMap<(String, String), (Verdict, usize, String, String)>,
}
impl<'a> Tally<'a> {
    pub fn new(rep: &'a mut Rep) -> Tally<'a> {
        Tally { rep, m: Default::default() }
    }
    pub fn add(&mut self, v: Verdict, rule: &str, key: &str, wher: &str, detail: impl FnOnce() -> String) {
        let e = self.m.entry((rule.into(), key.into())).or_insert((Verdict::Proved, 0, wher.into(), String::new()));
        e.1 += 1;
        if v > e.0 {
            e.0 = v;
            e.3 = detail();
        }
    }
    pub fn done(self) {
        for ((r, k), (v, n, w, d)) in self.m {
            *self.rep.numbers.entry("cases_compared".into()).or_default() += n as u64;
            self.rep.ob(v, &r, &k, &w, &d);
        }
    }
}
pub fn slice_of(v: &Val) -> Option<(O, Lin, Lin)> {
    match v {
        Val::Ptr(Ptr { base: Base::Sym(o), path, view: Some((a, n)) }) if path.is_empty() => Some((*o, a.clone(), n.clone())),
        _ => None,
    }
}
pub fn char_at(o: O, i: &Lin) -> Lin {
    match elem(Ty::from_rigid_kind(RigidTy::Char), o, i) {
        Val::Int(l) => l,
        _ => Lin::k(0),
    }
}

/// Unicode predicates are left opaque
pub fn opaque_upper() -> Hook {
    std::rc::Rc::new(|_, _, name, args, st| {
        let Some(Val::Int(c)) = args.first() else { return None };
        if name.starts_with("core::char") || name.starts_with("std::char") || name.contains("<impl char>") {
            if name.ends_with("::is_uppercase") {
                return Some(vec![(st.clone(), Val::Bool(is_upper(c)))]);
            }
        }
        None
    })
}
pub fn is_upper(c: &Lin) -> Cond {
    let range = match (c.is_const(), c.single()) {
        (Some(k), _) => Some((k, k)),
        (_, Some(s)) if *c == Lin::s(s) => match bounds(s) {
            (Some(a), Some(b)) => Some((a, b)),
            _ => None,
        },
        _ => None,
    };
    if let Some(b) = range.and_then(|(a, b)| crate::models::same_all("is_uppercase", a, b)) {
        return Cond::b(b);
    }
    eqk(&Lin::s(app("is_uppercase", vec![Arg::L(c.clone())], Some(0), Some(1), 0)), 1)
}

#[derive(Clone)]
pub struct PatFields {
    pub ty: Ty,
    pub text: usize,
    pub upper: usize,
    pub kind: usize,
    pub inverse: usize,
    pub lead: usize,
    pub trail: usize,
    pub kind_ty: Ty,
}
impl PatFields {
    pub fn find(w: &World) -> Option<PatFields> {
        let ty = w.pattern()?;
        let f = field_tys(ty, 0);
        let by = |p: &dyn Fn(&str, Ty) -> bool| f.iter().position(|(n, t)| p(n, *t));
        let kind = by(&|_, t| is_fieldless_enum(t))?;
        let usz = |t: Ty| is_ty(t, &RigidTy::Uint(UintTy::Usize));
        Some(PatFields {
            ty,
            text: by(&|_, t| matches!(pointee(t).and_then(rigid), Some(RigidTy::Slice(e)) if is_char(e)))?,
            upper: by(&|n, t| is_bool(t) && n.contains("upper"))?,
            kind,
            inverse: by(&|n, t| is_bool(t) && (n.contains("inv") || n.contains("neg")))?,
            lead: by(&|n, t| usz(t) && n.contains("lead"))?,
            trail: by(&|n, t| usz(t) && n.contains("trail"))?,
            kind_ty: f[kind].1,
        })
    }
    /// index of the variant for a kind of match
    pub fn kind(&self, k: &str) -> Option<u32> {
        let v = variant_names(self.kind_ty);
        let p = |n: &String| {
            let n = n.to_lowercase();
            match k {
                "Exact" => n == "exact",
                k => n.starts_with(&k.to_lowercase()),
            }
        };
        v.iter().position(p).map(|x| x as u32)
    }
}

/// what is known about the text of a pattern
#[allow(clippy::too_many_arguments)]
fn text_facts(it: &Interp, t: &mut Tally, s: &State, fs: &[Val], pf: &PatFields, o: O, start: &Lin, len: &Lin, wher: &str, of: &str) {
    let end = start.add(len);
    let up = |i: &Lin| is_upper(&char_at(o, i));
    let sp = |i: &Lin| eqk(&char_at(o, i), ' ' as i128);
    let nonempty = ge(len, &Lin::k(1));
    if let Val::Bool(b) = &fs[pf.upper] {
        let first = implies(&nonempty, &implies(&up(start), b));
        let last = implies(&nonempty, &implies(&up(&end.plus(-1)), b));
        let one = implies(&eqk(len, 1), &implies(b, &up(start)));
        let two = implies(&eqk(len, 2), &implies(b, &Cond::Or(vec![up(start), up(&start.plus(1))])));
        // any of the characters, where their number is known
        let all: Vec<Cond> = len.is_const().filter(|n| *n > 2).map_or(vec![], |n| {
            let any = Cond::Or((0..n).map(|k| up(&start.plus(k))).collect()).norm();
            vec![implies(&any, b), implies(b, &any)]
        });
        for c in [first, last, one, two].into_iter().chain(all) {
            t.add(it.strict(s, &c), "the uppercase flag of a pattern tells whether its text has an uppercase letter", &format!("uppercase flag of {of}"), wher, || {
                format!("flag {b:?}, but {c:?} fails when {}", show_num(&s.num))
            });
        }
    }
    for (k, what) in [(pf.lead, "leading"), (pf.trail, "trailing")] {
        let Some(n) = int(&fs[k]) else { continue };
        // the j-th space from that end, and the first non-space
        let at = |j: &Lin| if k == pf.lead { sp(&start.add(j)) } else { sp(&end.sub(j).plus(-1)) };
        let some = ge(&n, &Lin::k(1));
        let all: Vec<Cond> = match (n.is_const(), len.is_const()) {
            (Some(n), Some(len)) if n <= len => vec![Cond::And((0..n).map(|j| at(&Lin::k(j))).collect()).norm()],
            _ => vec![],
        };
        for c in [
            ge(len, &n),
            implies(&some, &at(&Lin::k(0))),
            implies(&some, &at(&n.plus(-1))),
            implies(&ge(&len.plus(-1), &n), &at(&n).not()),
        ]
        .into_iter()
        .chain(all)
        {
            t.add(it.strict(s, &c), "the space counts of a pattern count the spaces at the ends of its text", &format!("{what} spaces of {of}"), wher, || {
                format!("count {n:?}, but {c:?} fails when {}", show_num(&s.num))
            });
        }
    }
}

fn run_word(f: &Instance, text: Option<&str>, least: i128) -> Run {
    fresh_world();
    match text {
        Some(t) => {
            let t: Vec<char> = t.chars().collect();
            pin("a0.len", t.len() as i128);
            set_text("a0", &t);
        }
        None => assume_bounds("a0.len", Some(least), None),
    }
    run_pre_with(f, vec![opaque_upper()], 2000, &|_| Cond::T, |it| {
        it.exact = false;
        if text.is_some() {
            it.peel = 600;
        }
    })
}
/// longer words: templates, see `set_text`
fn some_words() -> Vec<String> {
    let mut out = vec![];
    for n in [1usize, 2, 3, 4, 5, 8, 15, 16, 17, 31, 32, 33, 40, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300] {
        let text = |upper: &[usize], lead: usize, trail: usize, c: char| -> String { (0..n).map(|k| if k < lead || k >= n - trail { ' ' } else if upper.contains(&k) { 'A' } else { c }).collect() };
        let mut ts = vec![text(&[], 0, 0, 'a'), text(&[], 0, 0, 'é'), text(&[], 0, 0, '漢')];
        for u in [0, n / 2, n - 1, n.saturating_sub(2)] {
            ts.push(text(&[u], 0, 0, 'a'));
            ts.push(text(&[u], 0, 0, '漢'));
        }
        for (a, b) in [(1, 0), (0, 1), (2, 3), (n / 2, n / 3), (n - 1, 0), (0, n - 1)] {
            if a + b < n {
                ts.push(text(&[a + 1], a, b, 'a'));
            }
        }
        for (a, b) in [("", ""), ("!", ""), ("'", ""), ("^", ""), ("", "$"), ("!^", "$"), ("^", "$"), ("!'", "")] {
            out.extend(ts.iter().map(|t| format!("{a}{t}{b}")));
        }
    }
    out
}

/// C11: one word of the query language
pub fn pattern_syntax(rep: &mut Rep) {
    let w = World::new();
    let Some(pf) = PatFields::find(&w) else { return rep.err("no pattern type with text, kind, negation, case flag and space counts".into()) };
    let is_chars = |t: Ty| matches!(pointee(t).and_then(rigid), Some(RigidTy::Slice(e)) if is_char(e));
    let kinds: Vec<Option<u32>> = ["Fuzzy", "Exact", "Prefix", "Suffix", "Equal"].iter().map(|k| pf.kind(k)).collect();
    if kinds.iter().any(|k| k.is_none()) {
        return rep.err("the kinds of match changed".into());
    }
    let k = |i: usize| kinds[i].unwrap() as i128;
    let names = ["fuzzy", "substring", "prefix", "suffix", "whole"];
    let parse = w.by_sig(|a, r| a.len() == 1 && is_chars(a[0]) && adt_last(r) == "Option" && type_arg(r, 0).is_some_and(|t| same(t, pf.ty)));
    let raw = w.by_sig(|a, r| a.len() == 1 && is_chars(a[0]) && same(r, pf.ty));
    if parse.is_empty() {
        rep.err("no function from characters to an optional pattern".into());
    }
    if raw.is_empty() {
        rep.err("no function from characters to a pattern".into());
    }
    let texts: Vec<Option<String>> = std::iter::once(None).chain(some_words().into_iter().map(Some)).collect();
    for (f, text) in parse.iter().flat_map(|f| texts.iter().map(move |t| (f, t))) {
        if !mine() {
            continue;
        }
        let r = run_word(f, text.as_deref(), 1);
        rep.absorb(&r.it);
        let wher = loc(f);
        let (it, Some((o, off0, n))) = (&r.it, slice_of(&r.args[0])) else { continue };
        let n = n.is_const().map_or(n.clone(), Lin::k);
        if it.overflow {
            rep.ob(Verdict::Unproven, "pattern syntax", "pattern syntax", &wher, "the analysis gave up");
            continue;
        }
        let mut t = Tally::new(rep);
        let is = |i: &Lin, c: char| eqk(&char_at(o, i), c as i128);
        for (s, v) in &r.rets {
            let Val::Enum(d, m) = v else {
                t.add(Verdict::Unproven, "pattern syntax", "result of parsing a word", &wher, String::new);
                continue;
            };
            let (neg, pos) = split(it, vec![s.clone()], &is(&off0, '!'));
            for (inv, ss) in [(1, neg), (0, pos)] {
                let off = off0.plus(inv);
                let last = off0.add(&n).plus(-1);
                let c = Cond::And(vec![ge(&n.plus(-inv), &Lin::k(2)), is(&last, '$')]);
                let (y, nn) = split(it, ss, &c);
                for (suf, ss) in [(1, y), (0, nn)] {
                    let end = off0.add(&n).plus(-suf);
                    let has = ge(&end.sub(&off), &Lin::k(1));
                    let (q, nq) = split(it, ss, &Cond::And(vec![has.clone(), is(&off, '\'')]));
                    let (ca, nc) = split(it, nq, &Cond::And(vec![has, is(&off, '^')]));
                    for (pre, ss) in [(1, q), (2, ca), (0, nc)] {
                        let start = off.plus((pre != 0) as i128);
                        let len = end.sub(&start);
                        let kind = match (pre, suf, inv) {
                            (1, _, 0) => 1,
                            (1, _, _) => 0,
                            (2, 1, _) => 4,
                            (2, _, _) => 2,
                            (_, 1, _) => 3,
                            (_, _, 1) => 1,
                            _ => 0,
                        };
                        let case = format!("{}{}text{}", if inv == 1 { "!" } else { "" }, ["", "'", "^"][pre as usize], if suf == 1 { "$" } else { "" });
                        let (empty, full) = split(it, ss, &eqk(&len, 0));
                        for s in empty {
                            t.add(it.strict(&s, &eqk(d, 0)), "a word with no text after its operators is ignored", &format!("empty {case}"), &wher, || show_num(&s.num));
                        }
                        for s in full {
                            let when = || format!("case {case}: {} when {}", show_val(v), show_num(&s.num));
                            t.add(it.strict(&s, &eqk(d, 1)), "a word with text is not dropped", &format!("word {case}"), &wher, when);
                            let Some(Val::Agg(fs)) = m.get(&1).and_then(|x| x.first()) else { continue };
                            if d.is_const() == Some(0) {
                                continue;
                            }
                            let Some(kd) = int(&fs[pf.kind]) else { continue };
                            t.add(it.strict(&s, &eqk(&kd, k(kind))), "the operators of a word select its kind of match", &format!("{case} is a {} match", names[kind]), &wher, when);
                            if let Val::Bool(b) = &fs[pf.inverse] {
                                let want = if inv == 1 { b.clone() } else { b.not() };
                                t.add(it.strict(&s, &want), "a word is negated exactly when it starts with !", &format!("negation of {case}"), &wher, when);
                            }
                            match slice_of(&fs[pf.text]) {
                                Some((o2, a, b)) if o2 == o => {
                                    let c = Cond::And(vec![eql(&a, &start), eql(&b, &len)]);
                                    t.add(it.strict(&s, &c), "the text of a word is what its operators leave", &format!("text of {case}"), &wher, when);
                                }
                                _ => t.add(Verdict::Unproven, "the text of a word is what its operators leave", &format!("text of {case}"), &wher, when),
                            }
                            text_facts(it, &mut t, &s, fs, &pf, o, &start, &len, &wher, &case);
                        }
                    }
                }
            }
        }
        t.done();
    }
    for (f, text) in raw.iter().flat_map(|f| texts.iter().map(move |t| (f, t))) {
        if !mine() {
            continue;
        }
        let r = run_word(f, text.as_deref(), 0);
        rep.absorb(&r.it);
        let wher = loc(f);
        let (it, Some((o, a0, n))) = (&r.it, slice_of(&r.args[0])) else { continue };
        let mut t = Tally::new(rep);
        for (s, v) in &r.rets {
            let Val::Agg(fs) = v else { continue };
            let when = || format!("{} when {}", show_val(v), show_num(&s.num));
            if let Some(kd) = int(&fs[pf.kind]) {
                t.add(it.strict(s, &eqk(&kd, k(0))), "outside extended search a query is one fuzzy pattern", "kind of the whole query", &wher, when);
            }
            if let Val::Bool(b) = &fs[pf.inverse] {
                t.add(it.strict(s, &b.not()), "outside extended search a query is one fuzzy pattern", "negation of the whole query", &wher, when);
            }
            if let Some((o2, a, b)) = slice_of(&fs[pf.text]) {
                if o2 == o {
                    t.add(it.strict(s, &Cond::And(vec![eql(&a, &a0), eql(&b, &n)])), "outside extended search every character is text", "text of the whole query", &wher, when);
                }
            }
            text_facts(it, &mut t, s, fs, &pf, o, &a0, &n, &wher, "the whole query");
        }
        t.done();
    }
}
#[allow(dead_code)]
type Unused = Instance;
