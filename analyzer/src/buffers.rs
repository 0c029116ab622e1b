//! C07: the memory calls work in: decoded candidates, rows and matrices.
use crate::anchors::*;
use crate::fuzzy::vec_paths;
use crate::interp::*;
use crate::leaf::*;
use crate::mat::*;
use crate::query::*;
use crate::report::*;
use crate::roots::*;
use crate::sem::*;
use crate::split::*;
use crate::tables::*;
use crate::term::*;
use crate::val::*;
use rustc_public::mir::mono::*;
use rustc_public::ty::*;

const DECODED: &str = "a decoded candidate is exactly its characters, whatever its length and the size of the buffer";
const ROOM: &str = "working memory is as large as asked for";
const INSIDE: &str = "decoding and handing out memory stays within the buffer";

fn slice_elem(t: Ty) -> Option<Ty> {
    match pointee(t).and_then(rigid) {
        Some(RigidTy::Slice(e)) => Some(e),
        _ => None,
    }
}
/// the owner of a growing buffer behind a unique reference
fn buffer(t: Ty) -> bool {
    pointee(t).is_some_and(|t| field_tys(t, 0).iter().any(|(_, f)| adt_last(*f) == "Vec"))
}
pub fn check(rep: &mut Rep) {
    let Some(q) = Q::new(rep) else { return };
    let (mut texts, mut rooms) = (0, 0);
    for f in &q.kit.w.fns {
        let (Some((a, _)), Some(r)) = (sig(f), ret(f)) else { continue };
        if f.body().is_none() {
            continue;
        }
        let (how, wher) = (def_path(f), loc(f));
        if a.len() == 2 && is_str(a[1]) && pointee(a[0]).is_some() && char_slice(r) {
            texts += 1;
            decode(rep, f, None);
            for (w, room) in some_texts() {
                decode(rep, f, Some((&w, room)));
            }
            continue;
        }
        // (buffer, sizes...) -> memory
        if a.len() < 2 || !buffer(a[0]) || !a[1..].iter().all(|t| int_ty(*t)) {
            continue;
        }
        // the slice itself, or a type with one slice and its dimensions
        let dims: Option<usize> = if slice_elem(r).is_some() { None } else { field_tys(r, 0).iter().position(|(_, t)| slice_elem(*t).is_some()) };
        if slice_elem(r).is_none() && dims.is_none() {
            continue;
        }
        rooms += 1;
        fresh_world();
        let n = a.len();
        let run = run_pre_with(f, vec![], 400, &|x| Cond::And((1..n).filter_map(|k| int(&x[k])).flat_map(|l| [ge(&l, &Lin::k(1)), ge(&Lin::k(1 << 30), &l)]).collect()).norm(), |it| it.opaque_ty.clear());
        rep.absorb(&run.it);
        let it = run.it;
        let mut t = Tally::new(rep);
        if it.overflow || run.rets.is_empty() {
            t.add(Verdict::Unproven, ROOM, &how, &wher, || "the analysis gave up".into());
        }
        for (s, v) in &run.rets {
            let when = || format!("{} when {}", show_val(v), show_num(&s.num));
            let asked: Vec<Lin> = run.args[1..].iter().filter_map(int).collect();
            let sl = match (dims, v) {
                (None, v) => Some(v),
                (Some(k), Val::Agg(fs)) => Some(&fs[k]),
                _ => None,
            };
            let len = match sl {
                Some(Val::Ptr(p)) => p.view.clone().map(|x| x.1),
                _ => None,
            };
            let want = asked.iter().skip(1).fold(asked.first().cloned().unwrap_or(Lin::k(0)), |x, y| mul(&x, y));
            match len {
                Some(l) => t.add(it.strict(s, &eql(&l, &want)), ROOM, &how, &wher, when),
                None => t.add(Verdict::Unproven, ROOM, &how, &wher, when),
            }
            if let (Some(_), Val::Agg(fs)) = (dims, v) {
                // every dimension is kept
                for k in &asked {
                    let same = fs.iter().filter_map(int).map(|f| eql(&f, k)).collect();
                    t.add(it.strict(s, &Cond::Or(same).norm()), ROOM, &format!("dimensions: {how}"), &wher, when);
                }
            }
        }
        inside(&mut t, &it, &how);
        t.done();
    }
    if texts == 0 {
        rep.err("no function decodes the characters of a str".into());
    }
    if rooms == 0 {
        rep.err("no function hands out working memory".into());
    }
}
fn inside(t: &mut Tally, it: &Interp, how: &str) {
    for e in &it.events {
        if e.rule.starts_with("index") || e.rule.starts_with("slice") {
            t.add(e.verdict, INSIDE, &format!("{} {how}", e.key), &e.loc, || e.detail.clone());
        }
    }
}
fn decode(rep: &mut Rep, f: &Instance, text: Option<(&[u8], i128)>) {
    let wher = loc(f);
    let how = format!("{}{}", def_path(f), text.map_or(String::new(), |(w, _)| format!(" of {} characters", w.len())));
    fresh_world();
    if let Some((w, room)) = text {
        set_widths("a1", w);
        let mut vs = vec![];
        vec_paths(strip_refs(arg_tys(f)[0]), "a0", &mut vs);
        for v in vs {
            pin(&v, room);
        }
    }
    let run = run_pre_with(f, vec![], 400, &|_| Cond::T, |it| {
        it.opaque_ty.clear();
        if text.is_some() {
            it.peel = 600;
        }
    });
    let Some(Val::Ptr(Ptr { base: Base::Bytes(o), .. })) = run.args.get(1) else { return };
    let o = *o;
    rep.absorb(&run.it);
    let mut it = run.it;
    let mut t = Tally::new(rep);
    if it.overflow || run.rets.is_empty() {
        t.add(Verdict::Unproven, DECODED, &how, &wher, || "the analysis gave up".into());
    }
    for (s, v) in &run.rets {
        whole_text(&mut t, &mut it, s, v, o, DECODED, &how, &wher);
    }
    inside(&mut t, &it, &how);
    t.done();
}
