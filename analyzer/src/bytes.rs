//! C08: positions of characters become positions of bytes.
use crate::anchors::*;
use crate::interp::*;
use crate::leaf::*;
use crate::mat::*;
use crate::report::*;
use crate::roots::*;
use crate::search::*;
use crate::sem::*;
use crate::tables::*;
use crate::term::*;
use crate::val::*;
use rustc_public::mir::mono::*;

const OFFSET: &str = "a character position becomes the number of UTF-8 bytes of the characters before it";
const RANGE: &str = "a range of characters becomes the range of their UTF-8 bytes";

/// candidates of up to `max` characters, every position and range in them
pub fn conversions(rep: &mut Rep, max: i128) {
    let Some(kit) = Kit::new(rep) else { return };
    let mut seen = vec![];
    for f in &kit.w.fns {
        let Some((role, ks)) = kit.roles.get(&def_path(f)) else { continue };
        let range = match *role {
            "byte_range" => true,
            "byte_offset" => false,
            _ => continue,
        };
        seen.push(range);
        convert(rep, &kit, f, ks, range, None);
        for n in 0..=max {
            for b in 0..=n {
                for a in if range { 0..=b } else { b..=b } {
                    convert(rep, &kit, f, ks, range, Some((n, a, b)));
                }
            }
        }
    }
    if !seen.contains(&true) {
        rep.err("no function turns a range of characters into one of bytes".into());
    }
}
/// an ASCII candidate of any length, or a Unicode one of n characters
fn convert(rep: &mut Rep, kit: &Kit, f: &Instance, ks: &[A], range: bool, at: Option<(i128, i128, i128)>) {
    let pos = |a: A| ks.iter().position(|x| *x == a);
    let Some(cp) = pos(A::Cand) else { return };
    fresh_world();
    let variant = if at.is_some() { kit.uni } else { kit.asc };
    pin(&format!("a{cp}.disc"), variant as i128);
    let clen = format!("a{cp}.{}.0.len", variant_names(kit.cand)[variant as usize]);
    let ip = pos(if range { A::Range } else { A::Usize }).unwrap();
    if let Some((n, a, b)) = at {
        pin(&clen, n);
        pin(&format!("a{ip}"), b);
        pin(&format!("a{ip}.start"), a);
        pin(&format!("a{ip}.end"), b);
    }
    let pre = move |args: &[Val]| {
        let Some((_, _, n)) = cand_slice(&args[cp], variant) else { return Cond::T };
        let mut c = vec![];
        match &args[ip] {
            Val::Int(i) => c.push(ge(&n, i)),
            Val::Agg(x) => {
                if let (Some(a), Some(b)) = (int(&x[0]), int(&x[1])) {
                    c.push(ge(&b, &a));
                    c.push(ge(&n, &b));
                }
            }
            _ => {}
        }
        Cond::And(c).norm()
    };
    let r = run_pre_with(f, vec![], 400, &pre, |it| {
        it.peel = 40;
        it.opaque_ty.clear();
    });
    rep.absorb(&r.it);
    let wher = loc(f);
    let rule = if range { RANGE } else { OFFSET };
    let how = match at {
        None => format!("{} in ASCII", def_path(f)),
        Some((n, ..)) => format!("{} in {n} characters", def_path(f)),
    };
    let Some((co, _, _)) = cand_slice(&r.args[cp], variant) else { return };
    let bytes = |i: i128| (0..i).fold(Lin::k(0), |s, j| s.add(&width(&char_at(co, &Lin::k(j)))));
    let want: Vec<Lin> = match (at, &r.args[ip]) {
        (Some((_, a, b)), _) => if range { vec![bytes(a), bytes(b)] } else { vec![bytes(b)] },
        (None, Val::Int(i)) => vec![i.clone()],
        (None, Val::Agg(x)) => x.iter().filter_map(int).collect(),
        _ => return,
    };
    let mut t = Tally::new(rep);
    if r.it.overflow || r.rets.is_empty() {
        t.add(Verdict::Unproven, rule, &how, &wher, || "the analysis gave up".into());
    }
    for (s, v) in &r.rets {
        let got: Vec<Lin> = match v {
            Val::Int(l) => vec![l.clone()],
            Val::Agg(x) => x.iter().filter_map(int).collect(),
            _ => vec![],
        };
        let v = if got.len() != want.len() {
            Verdict::Unproven
        } else {
            let c = Cond::And(got.iter().zip(&want).map(|(a, b)| eql(a, b)).collect()).norm();
            r.it.strict(s, &c)
        };
        t.add(v, rule, &how, &wher, || format!("{got:?} for {want:?} ({at:?}) when {}", show_num(&s.num)));
    }
    t.done();
}
fn width(c: &Lin) -> Lin {
    len8(c)
}
