//! C18: where a query character occurs in the candidate.
use crate::anchors::*;
use crate::eval;
use crate::interp::*;
use crate::mat::*;
use crate::num::Num;
use crate::report::*;
use crate::roots::*;
use crate::sem::*;
use crate::tables::*;
use crate::term::*;
use crate::val::*;
use rustc_public::mir::mono::*;
use rustc_public::ty::*;
use rustc_public::CrateDef;

/// the enum that holds the candidate as bytes or as characters: (type, ascii variant, unicode variant)
pub fn candidate(t: Ty) -> Option<(u32, u32)> {
    let n = variant_names(t).len();
    if n != 2 {
        return None;
    }
    let el = |k: usize| match &field_tys(t, k)[..] {
        [(_, f)] => match pointee(*f).and_then(rigid) {
            Some(RigidTy::Slice(e)) => Some(e),
            _ => None,
        },
        _ => None,
    };
    let (a, b) = (el(0)?, el(1)?);
    let byte = |t: Ty| is_ty(t, &RigidTy::Uint(UintTy::U8));
    if byte(a) && is_char(b) {
        Some((0, 1))
    } else if is_char(a) && byte(b) {
        Some((1, 0))
    } else {
        None
    }
}
/// byte or char slice of a candidate value in one of its variants
pub fn cand_slice(v: &Val, variant: u32) -> Option<(O, Lin, Lin)> {
    match v {
        Val::Enum(_, m) => slice_of(m.get(&variant)?.first()?),
        _ => None,
    }
}
fn usize_ty(t: Ty) -> bool {
    is_ty(t, &RigidTy::Uint(UintTy::Usize))
}

struct Roles {
    cand: usize,
    off: Option<usize>,
    ch: usize,
    flag: usize,
    eq: usize,
    asc: u32,
    uni: u32,
}
fn roles(a: &[Ty]) -> Option<Roles> {
    let one = |p: &dyn Fn(Ty) -> bool| {
        let v: Vec<usize> = (0..a.len()).filter(|k| p(a[*k])).collect();
        (v.len() == 1).then(|| v[0])
    };
    let cand = one(&|t| candidate(t).is_some())?;
    let (asc, uni) = candidate(a[cand])?;
    let off = one(&usize_ty);
    if a.len() != 4 + off.is_some() as usize {
        return None;
    }
    Some(Roles { cand, off, ch: one(&is_char)?, flag: one(&is_bool)?, eq: one(&is_char_eq)?, asc, uni })
}

struct Scan {
    back: bool,
    o: O,
    off: Lin,
    n: Lin,
    needles: Vec<Lin>,
    pos: Lin,
}
fn scans(st: &State) -> Vec<Scan> {
    let mut out = vec![];
    for k in 0.. {
        let Some(Val::Int(l)) = st.ghost.get(&format!("scan{k}")) else { break };
        let [(s, 1)] = l.t[..] else { continue };
        let SymKind::App(f, a) = sym_kind(s) else { continue };
        let (Some(Arg::O(o)), Some(Arg::L(off)), Some(Arg::L(n))) = (a.first(), a.get(1), a.get(2)) else { continue };
        let needles = a[3..].iter().filter_map(|x| match x {
            Arg::L(l) => Some(l.clone()),
            _ => None,
        });
        out.push(Scan { back: f == "memrchr", o: *o, off: off.clone(), n: n.clone(), needles: needles.collect(), pos: l.clone() });
    }
    out
}
/// do the needles of a scan differ from the characters equal to the query's, for some ASCII character?
fn needles(st: &State, sc: &Scan, ch: &Lin, flag: &Cond, chn: &str, fln: &str) -> (Verdict, String) {
    for c in 0..128i128 {
        for f in [0, 1] {
            let e = |n: &str, _: &[i128]| match n {
                n if n == chn => Some(c),
                n if n == fln => Some(f),
                _ => None,
            };
            if eval::num(&st.num, &e) == Some(false) {
                continue;
            }
            let mut want = vec![c];
            let cc = c as u8 as char;
            if f == 0 && cc.is_ascii_alphabetic() {
                want.push(c ^ 32);
            }
            let mut got = vec![];
            for n in &sc.needles {
                match eval::lin(n, &e) {
                    Some(v) => got.push(v),
                    None => return (Verdict::Unproven, format!("needle {n:?}")),
                }
            }
            got.sort();
            got.dedup();
            want.sort();
            if got != want {
                let at = Cond::And(vec![eqk(ch, c), if f == 1 { flag.clone() } else { flag.not() }]);
                let real = Interp::assume_num(&st.num, &at).iter().any(|n| n.feasible());
                if real {
                    let v = if st.poison.is_some() || st.tags.contains("approx") || st.tags.contains("gen") { Verdict::Unproven } else { Verdict::Definite };
                    return (v, format!("looking for {} ({}) searches the bytes {got:?}", show_c(c), if f == 1 { "case-sensitive" } else { "ignoring case" }));
                }
            }
        }
    }
    (Verdict::Proved, String::new())
}
/// do the constraints speak about elements of the object?
fn looked(n: &Num, o: O) -> bool {
    let name = format!("{}[]", obj_name(o));
    n.ge.iter().chain(n.ne.iter()).any(|l| l.t.iter().any(|(s, _)| format!("{:?}", Lin::s(*s)).contains(&name)))
}
fn fnptr_at(eq: &Val, ch: &Lin, o: O, i: &Lin) -> Option<Cond> {
    let Val::Fn(FnVal::Sym(f)) = eq else { return None };
    let a = vec![Arg::L(f.clone()), Arg::L(ch.clone()), Arg::L(char_at(o, i))];
    Some(eqk(&Lin::s(app("fnptr", a, Some(0), Some(1), 0)), 1))
}

const POS: &str = "a search reports the absolute position of the occurrence it asks for";
const BYTES: &str = "a byte search looks for exactly the bytes the comparison accepts";
const NONE: &str = "a search fails only when no character of its range compares equal";

/// a result of one search over lo..hi of the candidate
#[allow(clippy::too_many_arguments)]
fn judge_search(t: &mut Tally, it: &Interp, s: &State, d: &Lin, x: Option<&Lin>, sc: Option<&Scan>, n_scans: usize, args: &[Val], r: &Roles, lo: &Lin, hi: &Lin, last: bool, ascii: bool, key: &str, wher: &str) {
    let Some(ch) = int(&args[r.ch]) else { return };
    let Val::Bool(flag) = &args[r.flag] else { return };
    let Some((o, base, _)) = cand_slice(&args[r.cand], if ascii { r.asc } else { r.uni }) else { return };
    let when = || format!("{} when {}", x.map_or("None".into(), |x| format!("Some({x:?})")), show_num(&s.num));
    let dir = if last { "last" } else { "first" };
    let alo = base.add(lo);
    if ascii {
        match sc {
            Some(sc) if n_scans == 1 && sc.o == o => {
                t.add(it.strict(s, &Cond::And(vec![eql(&sc.off, &alo), eql(&sc.n, &hi.sub(lo))])), "a search covers exactly the range it is given", &format!("{key}: range of the byte search"), wher, || {
                    format!("searches {} bytes from {:?}; {}", format!("{:?}", sc.n), sc.off, when())
                });
                t.add(if sc.back == last { Verdict::Proved } else { it.strict(s, &Cond::F) }, POS, &format!("{key}: {dir} occurrence"), wher, when);
                let (v, d2) = needles(s, sc, &ch, flag, &format!("a{}", r.ch), &format!("a{}", r.flag));
                t.add(v, BYTES, &format!("{key}: bytes searched"), wher, || d2);
                if x.is_some() {
                    let (y, _) = split(it, vec![s.clone()], &Cond::And(vec![eqk(d, 1), ge(&ch, &Lin::k(128))]).norm());
                    let v = y.iter().map(|s| it.strict(s, &Cond::F)).max().unwrap_or(Verdict::Proved);
                    t.add(v, BYTES, &format!("{key}: characters outside ASCII"), wher, when);
                }
                if let Some(x) = x {
                    t.add(it.strict(s, &Cond::Or(vec![eqk(d, 0), eql(&base.add(x), &sc.off.add(&sc.pos))])), POS, &format!("{key}: position in ASCII candidates"), wher, when);
                }
            }
            None if d.is_const() == Some(0) => {
                let c = Cond::Or(vec![ge(&ch, &Lin::k(128)), ge(lo, hi)]).norm();
                let mut v = it.strict(s, &c);
                if v == Verdict::Definite && looked(&s.num, o) {
                    v = Verdict::Unproven;
                }
                t.add(v, NONE, &format!("{key}: failure in ASCII candidates"), wher, when);
            }
            _ => {
                if let Some(x) = x {
                    // found without a byte search: the byte itself must be known
                    let at = elem(Ty::from_rigid_kind(RigidTy::Uint(UintTy::U8)), o, &base.add(x));
                    let Some(b) = int(&at) else { return };
                    let c = Cond::Or(vec![eqk(d, 0), Cond::And(vec![ge(x, lo), ge(&hi.plus(-1), x), Cond::Or(vec![eql(&b, &ch), flag.not()])])]).norm();
                    let mut v = it.strict(s, &c);
                    if v == Verdict::Definite && n_scans > 1 {
                        v = Verdict::Unproven;
                    }
                    t.add(v, POS, &format!("{key}: position in ASCII candidates"), wher, when);
                } else {
                    t.add(Verdict::Unproven, POS, &format!("{key}: position in ASCII candidates"), wher, when);
                }
            }
        }
        return;
    }
    let eqf = |i: &Lin| fnptr_at(&args[r.eq], &ch, o, &base.add(i)).unwrap_or(Cond::Unk(UNK));
    let first = if last { hi.plus(-1) } else { lo.clone() };
    match (d.is_const(), x) {
        (Some(0), _) | (_, None) => {
            let c = Cond::Or(vec![ge(lo, hi), eqf(&first).not()]).norm();
            t.add(it.strict(s, &c), NONE, &format!("{key}: failure in Unicode candidates"), wher, when);
            let far = if last { lo.clone() } else { hi.plus(-1) };
            let c = Cond::Or(vec![ge(lo, hi), eqf(&far).not()]).norm();
            // the far end: refuted only on paths that never test it
            let v = it.strict(s, &c);
            t.add(v, NONE, &format!("{key}: failure in Unicode candidates, far end"), wher, when);
        }
        (_, Some(x)) => {
            let inside = Cond::And(vec![ge(x, lo), ge(&hi.plus(-1), x)]).norm();
            t.add(it.strict(s, &inside), POS, &format!("{key}: position within the range"), wher, when);
            t.add(it.strict(s, &eqf(x)), POS, &format!("{key}: the reported character compares equal"), wher, when);
            let c = Cond::Or(vec![eql(x, &first), eqf(&first).not()]).norm();
            t.add(it.strict(s, &c), POS, &format!("{key}: {dir} occurrence in Unicode candidates"), wher, when);
            let before = if last { x.plus(1) } else { x.plus(-1) };
            let c = Cond::Or(vec![eql(x, &first), eqf(&before).not()]).norm();
            t.add(it.strict(s, &c), POS, &format!("{key}: no occurrence skipped in Unicode candidates"), wher, when);
        }
    }
}

fn range(args: &[Val], r: &Roles, ascii: bool, last: bool) -> Option<(Lin, Lin)> {
    let (_, _, n) = cand_slice(&args[r.cand], if ascii { r.asc } else { r.uni })?;
    Some(match (r.off, last) {
        (None, _) => (Lin::k(0), n),
        (Some(k), false) => (int(&args[k])?, n),
        (Some(k), true) => (Lin::k(0), int(&args[k])?),
    })
}

pub fn searches(rep: &mut Rep) {
    let w = World::new();
    let is_pos = |t: Ty| adt_last(t) == "Option" && type_arg(t, 0).is_some_and(usize_ty);
    let mut firsts = 0;
    let fns = w.by_sig(|a, r| roles(a).is_some() && (is_pos(r) || matches!(rigid(r), Some(RigidTy::Adt(d, _)) if d.krate().is_local)));
    for f in &fns {
        let Some((a, ret)) = sig(f) else { continue };
        let Some(r) = roles(&a) else { continue };
        let path = def_path(f);
        let name = path.rsplit("::").next().unwrap_or("").to_string();
        let last = name.contains("last") || name.starts_with('r');
        let wher = loc(f);
        let steps = if is_pos(ret) { 1 } else { 3 };
        let next = if steps == 1 {
            None
        } else {
            match w.fns.iter().find(|g| sig(g).is_some_and(|(a, _)| a.len() == 1 && pointee(a[0]).is_some_and(|t| same(t, ret))) && g.body().is_some_and(|b| is_pos(b.ret_local().ty))) {
                Some(g) => Some(g.clone()),
                None => continue,
            }
        };
        firsts += 1;
        for ascii in [true, false] {
            fresh_world();
            set_ascii(&format!("a{}.{}.0", r.cand, variant_names(a[r.cand])[r.asc as usize]), true);
            pin(&format!("a{}.disc", r.cand), if ascii { r.asc } else { r.uni } as i128);
            let pre = |args: &[Val]| match (r.off, cand_slice(&args[r.cand], if ascii { r.asc } else { r.uni })) {
                (Some(k), Some((_, _, n))) => Cond::And(vec![ge(&n, &int(&args[k]).unwrap_or(Lin::k(0))), ge(&int(&args[k]).unwrap_or(Lin::k(0)), &Lin::k(0))]).norm(),
                _ => Cond::T,
            };
            let mut run = run_pre_with(f, vec![], 400, &pre, |it| it.record_scans = true);
            let Some((lo, hi)) = range(&run.args, &r, ascii, last) else { continue };
            let mut t = Tally::new(rep);
            if let Some(next) = &next {
                // the constructor searches nothing itself; follow the first calls of next
                let mut cur: Vec<(State, Ptr, Lin)> = vec![];
                for (mut s, v) in std::mem::take(&mut run.rets) {
                    s.frames.push(std::rc::Rc::new(Frame { locals: vec![v] }));
                    let p = Ptr::to(Base::Local(s.frames.len() - 1, 0));
                    cur.push((s, p, lo.clone()));
                }
                for k in 0..steps {
                    let mut nxt = vec![];
                    for (mut s, p, from) in cur {
                        s.ghost.clear();
                        for (s, v) in run.it.call(next, vec![Val::Ptr(p.clone())], s) {
                            let Val::Enum(d, m) = &v else { continue };
                            let x = m.get(&1).and_then(|x| x.first()).and_then(int);
                            let sc = scans(&s);
                            let key = format!("{name}, {} position", ["first", "second", "third"][k]);
                            judge_search(&mut t, &run.it, &s, d, if d.is_const() == Some(0) { None } else { x.as_ref() }, sc.last(), sc.len(), &run.args, &r, &from, &hi, false, ascii, &key, &wher);
                            if let (Some(1), Some(x)) = (d.is_const(), x) {
                                nxt.push((s, p.clone(), x.plus(1)));
                            }
                        }
                    }
                    cur = nxt;
                }
            } else {
                for (s, v) in &run.rets {
                    let Val::Enum(d, m) = v else { continue };
                    let x = m.get(&1).and_then(|x| x.first()).and_then(int);
                    let sc = scans(s);
                    judge_search(&mut t, &run.it, s, d, if d.is_const() == Some(0) { None } else { x.as_ref() }, sc.last(), sc.len(), &run.args, &r, &lo, &hi, last, ascii, &name, &wher);
                }
            }
            t.done();
            rep.absorb(&run.it);
        }
    }
    rep.numbers.insert("search_functions".into(), firsts);
    if firsts == 0 {
        rep.err("no function searches a character in the candidate".into());
    }
}
#[allow(dead_code)]
type Unused = Instance;
