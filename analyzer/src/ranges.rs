//! C09: the collector of matched ranges keeps a sorted list of separate
//! ranges behind whatever the buffer held before.
use crate::anchors::*;
use crate::interp::*;
use crate::leaf::*;
use crate::mat::*;
use crate::report::*;
use crate::roots::*;
use crate::sem::*;
use crate::tables::*;
use crate::term::*;
use crate::val::*;
use rustc_public::mir::mono::*;
use std::rc::Rc;

const UNION: &str = "after a range is added exactly the bytes covered before and those of the range are covered";
const APART: &str = "the collected ranges stay sorted, not empty and apart from each other";
pub const EARLIER: &str = "what the buffer held before the call stays as it was";
pub const CLEARED: &str = "clearing removes exactly the collected ranges";

pub const STARTS: &str = "a new collector counts everything in the buffer as from before";

/// (start, end) of a range value
fn ends(v: &Val) -> Option<(Lin, Lin)> {
    match v {
        Val::Agg(x) if x.len() >= 2 => Some((int(&x[0])?, int(&x[1])?)),
        _ => None,
    }
}

pub fn collector(rep: &mut Rep, max: i128) {
    let Some(kit) = Kit::new(rep) else { return };
    let mut n = 0;
    for f in &kit.w.fns {
        let Some((role, _)) = kit.roles.get(&def_path(f)) else { continue };
        if *role == "insert" && def_path(f).rsplit("::").next().unwrap_or("") != "insert" {
            continue;
        }
        if *role != "insert" && *role != "clear" {
            continue;
        }
        n += 1;
        for init in [0, 1, 3] {
            for k in 0..=if init == 3 { max.min(2) } else { max } {
                add(rep, &kit, f, *role == "clear", init, k);
            }
        }
    }
    for f in &kit.w.fns {
        let (Some((a, _)), Some(r)) = (sig(f), ret(f)) else { continue };
        if is_ranges(r) && a.len() == 1 && adt_last(strip_refs(a[0])) == "Vec" {
            starts(rep, f);
        }
    }
    if n == 0 {
        rep.err("no function adds a range to the collector".into());
    }
}

fn add(rep: &mut Rep, kit: &Kit, f: &Instance, clear: bool, before: i128, k: i128) {
    let at = arg_tys(f);
    let Some(cp) = at.iter().position(|t| kit.kind(*t) == A::Ranges) else { return };
    let rp = at.iter().position(|t| kit.kind(*t) == A::Range);
    fresh_world();
    for (name, t) in field_tys(strip_refs(at[cp]), 0) {
        match int_bounds(t) {
            Some(_) => pin(&format!("a{cp}.{name}"), before),
            None => pin(&format!("a{cp}.{name}.len"), before + k),
        }
    }
    let mut it = Interp::new();
    it.opaque_ty.clear();
    it.peel = 12;
    it.cap = 4000;
    let mut s = State::new();
    let args: Vec<Val> = at.iter().enumerate().map(|(k, t)| mat(&mut s, *t, &format!("a{k}"), &[])).collect();
    s.frames.push(Rc::new(Frame { locals: args.clone() }));
    let fail = |rep: &mut Rep| rep.err(format!("{}: the collector could not be read", def_path(f)));
    // the buffer behind the collector, and how much of it is from before
    let Val::Ptr(p) = &args[cp] else { return fail(rep) };
    let Some((_, Val::Agg(fs))) = it.read(s.clone(), p).into_iter().next() else { return fail(rep) };
    let (mut buf, mut init) = (None, None);
    for v in fs.iter() {
        match v {
            Val::Ptr(b) => buf = Some(b.clone()),
            Val::Int(l) => init = Some(l.clone()),
            _ => {}
        }
    }
    let (Some(buf), Some(init)) = (buf, init) else { return fail(rep) };
    let Some((_, Val::Vec(h, len))) = it.read(s.clone(), &buf).into_iter().next() else { return fail(rep) };
    let get = |it: &mut Interp, s: &State, h: u32, i: &Lin| -> Option<(Lin, Lin)> {
        let r = it.seq_read(s.clone(), h, i);
        match &r[..] {
            [(_, v)] => ends(v),
            _ => None,
        }
    };
    let mut c = vec![eql(&len, &init.plus(k))];
    let mut old = vec![];
    for i in 0..k {
        let Some(r) = get(&mut it, &s, h, &init.plus(i)) else { return fail(rep) };
        c.push(ge(&r.1, &r.0.plus(1)));
        if let Some(p) = old.last() {
            let p: &(Lin, Lin) = p;
            c.push(ge(&r.0, &p.1.plus(1)));
        }
        old.push(r);
    }
    let new = rp.and_then(|p| ends(&args[p]));
    if let Some(r) = &new {
        c.push(ge(&r.1, &r.0.plus(1)));
    }
    let st0 = s.clone();
    let mut rets = vec![];
    for s in it.assume(s, &Cond::And(c).norm()) {
        rets.extend(it.call(f, args.clone(), s));
    }
    rep.absorb(&it);
    let wher = loc(f);
    let how = format!("{} with {before} ranges from before and {k} collected", if clear { "clear" } else { "insert" });
    let mut t = Tally::new(rep);
    if it.overflow || rets.is_empty() {
        t.add(Verdict::Unproven, if clear { CLEARED } else { UNION }, &how, &wher, || "the analysis gave up".into());
    }
    let inside = |x: &Lin, v: &[(Lin, Lin)]| Cond::Or(v.iter().map(|(a, b)| Cond::And(vec![ge(x, a), ge(&b.plus(-1), x)]).norm()).collect()).norm();
    let x = Lin::s(app("some byte", vec![], Some(0), Some(u64::MAX as i128), 0));
    for (s, _) in &rets {
        let when = || format!("when {}", show_num(&s.num));
        let Some((_, Val::Vec(h1, len1))) = it.read(s.clone(), &buf).into_iter().next() else {
            t.add(Verdict::Unproven, UNION, &how, &wher, when);
            continue;
        };
        for early in 0..before {
            let (y, early) = (s.clone(), Lin::k(early));
            let was = get(&mut it, &st0, h, &early);
            let is = get(&mut it, &y, h1, &early);
            let v = match (was, is) {
                (Some(a), Some(b)) => it.strict(&y, &Cond::And(vec![eql(&a.0, &b.0), eql(&a.1, &b.1)]).norm()),
                _ => Verdict::Unproven,
            };
            t.add(v, EARLIER, &how, &wher, when);
        }
        if clear {
            t.add(it.strict(s, &eql(&len1, &init)), CLEARED, &how, &wher, when);
            continue;
        }
        let Some(n) = len1.sub(&init).is_const().or_else(|| (0..=k + 1).find(|n| it.entails(&s.num, &eql(&len1, &init.plus(*n))))) else {
            let v = it.strict(s, &ge(&len1, &init));
            t.add(if v == Verdict::Proved { Verdict::Unproven } else { v }, EARLIER, &how, &wher, when);
            continue;
        };
        let mut now = vec![];
        for i in 0..n {
            match get(&mut it, s, h1, &init.plus(i)) {
                Some(r) => now.push(r),
                None => break,
            }
        }
        if (now.len() as i128) < n {
            t.add(Verdict::Unproven, UNION, &how, &wher, when);
            continue;
        }
        let mut before = old.clone();
        before.extend(new.clone());
        let show = || format!("{now:?} from {old:?} and {new:?}; {}", when());
        t.add(it.strict(s, &iff(&inside(&x, &now), &inside(&x, &before))), UNION, &how, &wher, show);
        for (i, r) in now.iter().enumerate() {
            t.add(it.strict(s, &ge(&r.1, &r.0.plus(1))), APART, &format!("not empty: {how}"), &wher, show);
            if i > 0 {
                t.add(it.strict(s, &ge(&r.0, &now[i - 1].1.plus(1))), APART, &format!("apart: {how}"), &wher, show);
            }
        }
    }
    t.done();
}

fn starts(rep: &mut Rep, f: &Instance) {
    let r = run(f, true, vec![]);
    let (mut it, rets, args, st0) = (r.it, r.rets, r.args, r.st0);
    let wher = loc(f);
    let how = def_path(f);
    let mut t = Tally::new(rep);
    let Val::Ptr(p) = &args[0] else { return };
    let Some((_, Val::Vec(h, len))) = it.read(st0.clone(), p).into_iter().next() else { return };
    for (s, v) in &rets {
        let Val::Agg(fs) = v else {
            t.add(Verdict::Unproven, STARTS, &how, &wher, || "the collector could not be read".into());
            continue;
        };
        for v in fs.iter() {
            match v {
                Val::Int(l) => t.add(it.strict(s, &eql(l, &len)), STARTS, &how, &wher, || format!("it counts {l:?} of {len:?}")),
                Val::Ptr(b) => {
                    let ok = matches!(it.read(s.clone(), b).into_iter().next(), Some((_, Val::Vec(h1, l1))) if h1 == h && l1 == len);
                    t.add(if ok { Verdict::Proved } else { Verdict::Unproven }, STARTS, &format!("{how}: same buffer"), &wher, || "it holds another buffer".into());
                }
                _ => {}
            }
        }
    }
    t.done();
}
