//! Loop invariants: a few exact iterations, then a Houdini-style search for an
//! inductive state per control shape. Cells that change become variables;
//! constraints are kept only while every entry and every back edge entails them.
use crate::axioms::saturate;
use crate::interp::*;
use crate::num::*;
use crate::term::*;
use crate::val::*;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

// ------------------------------------------------------------------ shapes
fn shape_obj(o: O, out: &mut String) {
    out.push_str(&obj_name(o));
    for a in obj_args(o) {
        match a {
            Arg::L(_) => out.push('#'),
            Arg::O(p) => shape_obj(p, out),
        }
    }
}
fn shape_base(b: &Base, out: &mut String) {
    match b {
        Base::Local(f, l) => out.push_str(&format!("L{f}.{l}")),
        Base::Heap(h) => out.push_str(&format!("H{h}")),
        Base::Sym(o) => {
            out.push('S');
            shape_obj(*o, out)
        }
        Base::Bytes(o) => {
            out.push('Y');
            shape_obj(*o, out)
        }
    }
}
fn shape_ptr(p: &Ptr, out: &mut String) {
    shape_base(&p.base, out);
    for s in &p.path {
        match s {
            Step::Field(i) => out.push_str(&format!(".{i}")),
            Step::Variant(i) => out.push_str(&format!("@{i}")),
            Step::Idx(_) => out.push_str("[]"),
        }
    }
    if p.view.is_some() {
        out.push('v')
    }
}
fn shape_cond(c: &Cond, out: &mut String) {
    match c {
        Cond::T => out.push('T'),
        Cond::F => out.push('F'),
        Cond::Ge(_) => out.push('g'),
        Cond::Eq(_) => out.push('e'),
        Cond::Ne(_) => out.push('n'),
        Cond::And(v) | Cond::Or(v) => {
            out.push_str(if matches!(c, Cond::And(_)) { "(&" } else { "(|" });
            v.iter().for_each(|x| shape_cond(x, out));
            out.push(')')
        }
        Cond::Unk(l) => out.push_str(&format!("u{l}")),
    }
}
fn shape_val(v: &Val, out: &mut String) {
    match v {
        Val::Undef => out.push('_'),
        Val::Top(l) => out.push_str(&format!("?{l}")),
        Val::Int(_) => out.push('i'),
        Val::Bool(c) => shape_cond(c, out),
        Val::Agg(a) => {
            out.push('(');
            a.iter().for_each(|x| shape_val(x, out));
            out.push(')')
        }
        Val::Enum(d, m) => {
            out.push('E');
            match d.is_const() {
                Some(k) => {
                    out.push_str(&k.to_string());
                    out.push('(');
                    if let Some(v) = m.get(&(k as u32)) {
                        v.iter().for_each(|x| shape_val(x, out));
                    }
                    out.push(')');
                }
                None => {
                    for (k, v) in m.iter() {
                        out.push_str(&format!("{k}("));
                        v.iter().for_each(|x| shape_val(x, out));
                        out.push(')');
                    }
                }
            }
        }
        Val::Ptr(p) => {
            out.push('*');
            shape_ptr(p, out)
        }
        Val::Fn(FnVal::Sym(_)) => out.push('f'),
        Val::Fn(f) => out.push_str(&format!("{f:?}")),
        Val::Clos(d, _, c) => {
            out.push_str(&format!("{d:?}("));
            c.iter().for_each(|x| shape_val(x, out));
            out.push(')')
        }
        Val::Vec(h, _) => out.push_str(&format!("V{h}")),
        Val::It(It::Slice { p, .. }) => {
            out.push('s');
            shape_ptr(p, out)
        }
        Val::It(It::Chars { o, idx, .. }) => {
            out.push('c');
            shape_obj(*o, out);
            if idx.is_some() {
                out.push('x')
            }
        }
        Val::It(It::Memchr { p, needles, .. }) => {
            out.push_str(&format!("m{}", needles.len()));
            shape_ptr(p, out)
        }
    }
}
pub fn shape(st: &State) -> String {
    let mut o = String::new();
    for f in &st.frames {
        o.push('|');
        f.locals.iter().for_each(|v| shape_val(v, &mut o));
    }
    for (h, x) in &st.heap {
        o.push_str(&format!(";{h}:"));
        match &**x {
            Obj::Cell(v) => shape_val(v, &mut o),
            Obj::Seq(s) => match &s.base {
                SeqBase::Sym(b) => shape_obj(*b, &mut o),
                SeqBase::Const(c) => o.push_str(&format!("k{}", c.len())),
                SeqBase::Undef => o.push('u'),
            },
        }
    }
    for (k, v) in &st.ghost {
        o.push_str(&format!(";{k}="));
        shape_val(v, &mut o);
    }
    for t in &st.tags {
        if t != "approx" && t != "gen" {
            o.push_str(&format!(";{t}"));
        }
    }
    if st.poison.is_some() {
        o.push_str(";poison")
    }
    o
}

// ------------------------------------------------------------------ cells
type F<'a> = &'a mut dyn FnMut(&Lin) -> Lin;
fn map_o(o: O, f: F) -> O {
    let a = obj_args(o);
    if a.is_empty() {
        return o;
    }
    let na: Vec<Arg> = a
        .iter()
        .map(|x| match x {
            Arg::L(l) => Arg::L(f(l)),
            Arg::O(p) => Arg::O(map_o(*p, f)),
        })
        .collect();
    if na == a {
        o
    } else {
        obj(&obj_name(o), na)
    }
}
fn map_ptr(p: &Ptr, f: F) -> Ptr {
    Ptr {
        base: match &p.base {
            Base::Sym(o) => Base::Sym(map_o(*o, f)),
            Base::Bytes(o) => Base::Bytes(map_o(*o, f)),
            b => b.clone(),
        },
        path: p
            .path
            .iter()
            .map(|s| match s {
                Step::Idx(l) => Step::Idx(f(l)),
                s => s.clone(),
            })
            .collect(),
        view: p.view.as_ref().map(|(a, b)| (f(a), f(b))),
    }
}
fn map_cond(c: &Cond, f: F) -> Cond {
    match c {
        Cond::Ge(l) => Cond::Ge(f(l)),
        Cond::Eq(l) => Cond::Eq(f(l)),
        Cond::Ne(l) => Cond::Ne(f(l)),
        Cond::And(v) => Cond::And(v.iter().map(|x| map_cond(x, f)).collect()),
        Cond::Or(v) => Cond::Or(v.iter().map(|x| map_cond(x, f)).collect()),
        c => c.clone(),
    }
}
fn map_val(v: &Val, f: F) -> Val {
    match v {
        Val::Int(l) => Val::Int(f(l)),
        Val::Bool(c) => Val::Bool(map_cond(c, f)),
        Val::Agg(a) => Val::agg(a.iter().map(|x| map_val(x, f)).collect()),
        Val::Clos(d, g, a) => Val::Clos(*d, g.clone(), Rc::new(a.iter().map(|x| map_val(x, f)).collect())),
        Val::Enum(d, m) => match d.is_const() {
            Some(k) => {
                let mut mm = BTreeMap::new();
                if let Some(v) = m.get(&(k as u32)) {
                    mm.insert(k as u32, v.iter().map(|x| map_val(x, f)).collect());
                }
                Val::Enum(d.clone(), Rc::new(mm))
            }
            None => {
                let nd = f(d);
                Val::Enum(nd, Rc::new(m.iter().map(|(k, v)| (*k, v.iter().map(|x| map_val(x, f)).collect())).collect()))
            }
        },
        Val::Ptr(p) => Val::Ptr(map_ptr(p, f)),
        Val::Fn(FnVal::Sym(l)) => Val::Fn(FnVal::Sym(f(l))),
        Val::Vec(h, l) => Val::Vec(*h, f(l)),
        Val::It(It::Slice { p, lo, hi }) => {
            let p = map_ptr(p, f);
            let lo = f(lo);
            let hi = f(hi);
            Val::It(It::Slice { p, lo, hi })
        }
        Val::It(It::Chars { o, lo, hi, idx }) => {
            let o = map_o(*o, f);
            let lo = f(lo);
            let hi = f(hi);
            let idx = idx.as_ref().map(|l| f(l));
            Val::It(It::Chars { o, lo, hi, idx })
        }
        Val::It(It::Memchr { p, pos, needles }) => {
            let p = map_ptr(p, f);
            let pos = f(pos);
            let needles = needles.iter().map(|l| f(l)).collect();
            Val::It(It::Memchr { p, pos, needles })
        }
        v => v.clone(),
    }
}
fn map_mem(st: &mut State, f: F) {
    for fr in st.frames.iter_mut() {
        let locals: Vec<Val> = fr.locals.iter().map(|v| map_val(v, f)).collect();
        *fr = Rc::new(Frame { locals });
    }
    for o in st.heap.values_mut() {
        match &**o {
            Obj::Cell(v) => *o = Rc::new(Obj::Cell(map_val(v, f))),
            Obj::Seq(s) => {
                if let SeqBase::Sym(b) = &s.base {
                    let nb = map_o(*b, f);
                    if nb != *b {
                        let mut s = s.clone();
                        s.base = SeqBase::Sym(nb);
                        *o = Rc::new(Obj::Seq(s));
                    }
                }
            }
        }
    }
    for v in st.ghost.values_mut() {
        *v = map_val(v, f);
    }
}
fn cells(st: &State) -> Vec<Lin> {
    let mut out = vec![];
    let mut s = st.clone();
    map_mem(&mut s, &mut |l| {
        out.push(l.clone());
        l.clone()
    });
    out
}
fn set_cells(st: &mut State, v: &[Lin]) {
    let mut k = 0;
    map_mem(st, &mut |_| {
        k += 1;
        v[k - 1].clone()
    });
}

/// Set(hi) after Fill(lo,hi) with the same law extends the fill.
pub fn compress(st: &mut State) {
    let ids: Vec<u32> = st.heap.keys().copied().collect();
    for h in ids {
        let Obj::Seq(s) = &*st.heap[&h] else { continue };
        if s.chain.len() < 2 {
            continue;
        }
        let mut out: Vec<W> = vec![];
        let mut changed = false;
        for w in &s.chain {
            if let (Some(W::Fill(lo, hi, e)), W::Set(i, v)) = (out.last(), w) {
                if i == hi && e.subst(&mut Subst::one(idx(), i.clone())) == *v {
                    let n = W::Fill(lo.clone(), hi.plus(1), e.clone());
                    *out.last_mut().unwrap() = n;
                    changed = true;
                    continue;
                }
            }
            out.push(w.clone());
        }
        if changed {
            let mut s = s.clone();
            s.chain = out;
            st.heap.insert(h, Rc::new(Obj::Seq(s)));
        }
    }
}
fn canon(st: &mut State) {
    map_mem(st, &mut |l| l.clone());
    compress(st);
    st.gc(&[]);
}

// ------------------------------------------------------------------ invariants
struct Inv {
    key: String,
    st: State,
    /// variable -> index of the cell that defines it
    gens: Vec<(S, usize)>,
    inits: Vec<State>,
    /// sequences generalised to unknown content: heap id -> (havoc name, prefix length, may guess)
    hav: BTreeMap<u32, (String, usize, bool)>,
    lossy: BTreeSet<S>,
    steps: BTreeMap<S, BTreeSet<i128>>,
    irregular: BTreeSet<S>,
}

fn holds(n: &Num, c: &Con) -> bool {
    match c {
        Con::Ge(l) => n.entails_ge(l),
        Con::Ne(l) => n.entails_ne(l),
    }
}
fn holds_sat(n: &Num, c: &Con) -> bool {
    if holds(n, c) {
        return true;
    }
    let l = match c {
        Con::Ge(l) | Con::Ne(l) => l,
    };
    if l.t.iter().any(|(s, _)| is_app(*s)) {
        let m = saturate(n, &[l.clone()]);
        return holds(&m, c);
    }
    false
}
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug)]
enum Con {
    Ge(Lin),
    Ne(Lin),
}
fn cons(n: &Num) -> Vec<Con> {
    n.ge.iter().map(|l| Con::Ge(l.clone())).chain(n.ne.iter().map(|l| Con::Ne(l.clone()))).collect()
}
fn csub(c: &Con, m: &mut Subst) -> Con {
    match c {
        Con::Ge(l) => Con::Ge(m.lin(l)),
        Con::Ne(l) => Con::Ne(m.lin(l)),
    }
}
fn clin(c: &Con) -> &Lin {
    match c {
        Con::Ge(l) | Con::Ne(l) => l,
    }
}

/// c and s as instances of one template over the table of variables
struct Gen {
    /// (value in C, value in S, variable)
    table: Vec<(Lin, Lin, S)>,
}
impl Gen {
    fn tie(&self, sg: &mut Subst, c: &Lin, s: &Lin) -> Option<Lin> {
        for (c0, s0, w) in &self.table {
            let d = c.sub(c0);
            if sg.lin(&d) == s.sub(s0) {
                return Some(Lin::s(*w).add(&d));
            }
        }
        for (c0, s0, w) in &self.table {
            let d = c.add(c0);
            if sg.lin(&d) == s.add(s0) {
                return Some(d.sub(&Lin::s(*w)));
            }
        }
        None
    }
    fn lin(&self, sg: &mut Subst, c: &Lin, s: &Lin, depth: usize) -> Option<Lin> {
        if sg.lin(c) == *s {
            return Some(c.clone());
        }
        if let Some(l) = self.tie(sg, c, s) {
            return Some(l);
        }
        if depth == 0 || c.t.len() != s.t.len() || c.t.len() > 3 {
            return None;
        }
        // termwise, same functions
        let mut used = vec![false; s.t.len()];
        let mut out = Lin::k(c.c);
        if c.c != s.c {
            return None;
        }
        for (cs, k) in &c.t {
            let mut found = None;
            for (j, (ss, m)) in s.t.iter().enumerate() {
                if used[j] || m != k {
                    continue;
                }
                if let Some(r) = self.sym(sg, *cs, *ss, depth - 1) {
                    found = Some((j, r));
                    break;
                }
            }
            let (j, r) = found?;
            used[j] = true;
            out = out.axpy(*k, &r);
        }
        Some(out)
    }
    fn sym(&self, sg: &mut Subst, c: S, s: S, depth: usize) -> Option<Lin> {
        if sg.sym(c) == Lin::s(s) {
            return Some(Lin::s(c));
        }
        let (SymKind::App(f, a), SymKind::App(g, b)) = (sym_kind(c), sym_kind(s)) else { return None };
        if f != g || a.len() != b.len() {
            return None;
        }
        let mut na = vec![];
        for (x, y) in a.iter().zip(b.iter()) {
            na.push(self.arg(sg, x, y, depth)?);
        }
        let i = sym(c);
        Some(mk_app(&f, na, i.lo, i.hi, i.labels & !arg_labels(&a)))
    }
    fn arg(&self, sg: &mut Subst, x: &Arg, y: &Arg, depth: usize) -> Option<Arg> {
        match (x, y) {
            (Arg::L(x), Arg::L(y)) => Some(Arg::L(self.lin(sg, x, y, depth)?)),
            (Arg::O(x), Arg::O(y)) => {
                if sg.obj(*x) == *y {
                    return Some(Arg::O(*x));
                }
                if obj_name(*x) != obj_name(*y) {
                    return None;
                }
                let (a, b) = (obj_args(*x), obj_args(*y));
                if a.len() != b.len() {
                    return None;
                }
                let mut na = vec![];
                for (p, q) in a.iter().zip(b.iter()) {
                    na.push(self.arg(sg, p, q, depth)?);
                }
                Some(Arg::O(obj(&obj_name(*x), na)))
            }
            _ => None,
        }
    }
}

impl Inv {
    fn new(key: String, st: State) -> Inv {
        Inv {
            key,
            inits: vec![st.clone()],
            st,
            gens: vec![],
            hav: BTreeMap::new(),
            lossy: BTreeSet::new(),
            steps: BTreeMap::new(),
            irregular: BTreeSet::new(),
        }
    }
    fn sigma(&self, sc: &[Lin]) -> Subst {
        Subst::new(self.gens.iter().map(|(v, i)| (*v, sc[*i].clone())).collect())
    }
    /// makes the invariant cover `s`; true if it had to change
    fn cover(&mut self, s: &State, is_init: bool, may_add: bool) -> bool {
        let dbg = std::env::var("NC_LOOP").is_ok();
        let sc = cells(s);
        let cc = cells(&self.st);
        if sc.len() != cc.len() {
            // cannot happen for equal shapes
            self.st.poison("loop states of different layout");
            return false;
        }
        let mut changed = false;
        let mut sg = self.sigma(&sc);
        let mis: Vec<usize> = (0..cc.len()).filter(|k| sg.lin(&cc[*k]) != sc[*k]).collect();
        let old_num = self.st.num.clone();
        let mut cands: BTreeSet<Con> = BTreeSet::new();
        let mut newvars: Vec<(S, Lin, Lin)> = vec![];
        if !mis.is_empty() {
            changed = true;
            let mut nc = cc.clone();
            let mut g = Gen { table: vec![] };
            let mut todo: Vec<usize> = mis.clone();
            // plain counters first, then applications that follow them, then the rest
            let mut phase = 0;
            while !todo.is_empty() {
                let mut left = vec![];
                let mut progress = false;
                for k in todo.iter().copied() {
                    if let Some(l) = g.lin(&mut sg, &cc[k], &sc[k], 3) {
                        nc[k] = l;
                        progress = true;
                        continue;
                    }
                    let delta = sc[k].sub(&sg.lin(&cc[k])).is_const().is_some();
                    let simple = cc[k].t.iter().all(|x| !is_app(x.0)) && sc[k].t.iter().all(|x| !is_app(x.0));
                    let take = match phase {
                        0 => delta && simple,
                        1 => delta,
                        2 => cc[k].t.len() <= 1 && sc[k].t.len() <= 1 && simple,
                        _ => true,
                    };
                    if take && !(phase > 0 && progress) {
                        let w = fresh("l", None, None, WIDE | cc[k].labels() | sc[k].labels());
                        g.table.push((cc[k].clone(), sc[k].clone(), w));
                        nc[k] = Lin::s(w);
                        self.gens.push((w, k));
                        newvars.push((w, cc[k].clone(), sc[k].clone()));
                        progress = true;
                    } else {
                        left.push(k);
                    }
                }
                todo = left;
                if !progress {
                    phase += 1;
                }
            }
            if dbg {
                for (w, c, s) in &newvars {
                    eprintln!("    new {} : {:?} / {:?}", show(*w), c, s);
                }
            }
            set_cells(&mut self.st, &nc);
            // candidate constraints for the new variables
            for (w, c, s) in &newvars {
                let wl = Lin::s(*w);
                let mut pool: BTreeSet<Lin> = BTreeSet::new();
                pool.insert(Lin::k(0));
                pool.insert(Lin::k(1));
                pool.insert(Lin::k(i64::MAX as i128));
                pool.insert(Lin::k(u64::MAX as i128));
                pool.insert(c.clone());
                for (w2, _, _) in &newvars {
                    if w2 != w {
                        pool.insert(Lin::s(*w2));
                    }
                }
                for (w2, _) in &self.gens {
                    if w2 != w {
                        pool.insert(Lin::s(*w2));
                    }
                }
                for l in nc.iter() {
                    if l.t.len() <= 2 && pool.len() < 24 {
                        pool.insert(l.clone());
                    }
                }
                for p in pool {
                    for k in [0, 1] {
                        cands.insert(Con::Ge(p.sub(&wl).plus(-k)));
                        cands.insert(Con::Ge(wl.sub(&p).plus(-k)));
                    }
                }
            }
            {
                // constraints of the covered state, read backwards
                let (mut m, ok) = inverse(&newvars, |x| x.2.clone());
                if ok {
                    for c in cons(&s_num(s)) {
                        let r = csub(&c, &mut m);
                        if r != c {
                            cands.insert(r);
                        }
                    }
                }
                let (mut m, ok) = inverse(&newvars, |x| x.1.clone());
                if ok {
                    for c in cons(&old_num) {
                        let r = csub(&c, &mut m);
                        if r != c {
                            cands.insert(r);
                        }
                    }
                }
            }
        }
        // keep what s entails
        let sc = cells(s);
        let mut sg = self.sigma(&sc);
        let mut keep = Num::default();
        for c in cons(&old_num) {
            let d = csub(&c, &mut sg);
            if holds_sat(&s.num, &d) {
                put(&mut keep, &c);
            } else {
                changed = true;
                if dbg {
                    eprintln!("    drop {c:?}");
                }
                let mut hit = false;
                for (v, _) in &self.gens {
                    if clin(&c).has_deep(*v) {
                        self.lossy.insert(*v);
                        hit = true;
                    }
                }
                if !hit {
                    self.st.tags.insert("approx".into());
                }
            }
        }
        self.st.num = keep;
        if is_init {
            // entries reached on different paths: also what the other one knows and this one implies
            let mut n_added = 0;
            for c in cons(&s_num(s)) {
                if n_added < 40 && !holds(&self.st.num, &c) && holds(&old_num, &c) {
                    put(&mut self.st.num, &c);
                    n_added += 1;
                }
            }
        }
        // candidates must hold in what was covered before, too
        if !cands.is_empty() {
            let mut mc = Subst::new(newvars.iter().map(|(w, c, _)| (*w, c.clone())).collect());
            let mut n_added = 0;
            for c in cands {
                if clin(&c).is_const().is_some() {
                    continue;
                }
                let known: bool = no_foreign(&c, &self.gens, &newvars, &old_num, s);
                if !known {
                    continue;
                }
                let a = csub(&c, &mut mc);
                let b = csub(&c, &mut sg);
                if !holds(&self.st.num, &c) && holds(&old_num, &a) && holds(&s.num, &b) {
                    put(&mut self.st.num, &c);
                    n_added += 1;
                    if n_added > 60 {
                        break;
                    }
                }
            }
        }
        // sequences
        changed |= self.cover_seqs(s, &mut sg);
        if !is_init {
            for (v, i) in &self.gens {
                let d = sc[*i].sub(&Lin::s(*v));
                match d.is_const() {
                    Some(k) => {
                        self.steps.entry(*v).or_default().insert(k);
                    }
                    None => {
                        self.irregular.insert(*v);
                    }
                }
            }
            if may_add {
                changed |= self.strengthen(s);
            }
        } else {
            self.inits.push(s.clone());
        }
        if s.tags.contains("approx") && !self.st.tags.contains("approx") {
            self.st.tags.insert("approx".into());
            changed = true;
        }
        if s.tags.contains("gen") {
            self.st.tags.insert("gen".into());
        }
        self.st.next = self.st.next.max(s.next);
        changed
    }
    fn cover_seqs(&mut self, s: &State, sg: &mut Subst) -> bool {
        let mut changed = false;
        let ids: Vec<u32> = self.st.heap.keys().copied().collect();
        for h in ids {
            let Obj::Seq(a) = &*self.st.heap[&h].clone() else { continue };
            let Some(Obj::Seq(b)) = s.heap.get(&h).map(|x| &**x) else { continue };
            let ac: Vec<W> = a.chain.iter().map(|w| w.subst(sg)).collect();
            if ac == b.chain {
                continue;
            }
            let mut p = 0;
            while p < ac.len() && p < b.chain.len() && ac[p] == b.chain[p] {
                p += 1;
            }
            // what was already unknown absorbs further stores
            if let Some((name, plen, guess)) = self.hav.get(&h).cloned() {
                let absorbed = p > plen && b.chain[p..].iter().all(|w| matches!(w, W::Set(..) | W::Fill(..)));
                if absorbed {
                    let mut lab = 0;
                    for w in &b.chain[p..] {
                        if let W::Set(_, v) | W::Fill(_, _, v) = w {
                            lab |= v.labels();
                        }
                    }
                    let old = match &a.chain[plen] {
                        W::Havoc(_, l) => *l,
                        _ => WIDE,
                    };
                    if guess && b.chain.len() == plen + 2 {
                        if let W::Set(i, y) = &b.chain[plen + 1] {
                            if let Some(f) = self.guess_fill(h, plen, i, y, sg) {
                                let mut na = a.clone();
                                // other elements stay unknown unless nothing else was written
                                na.chain.truncate(plen + f.1 as usize);
                                na.chain.push(f.0);
                                self.st.heap.insert(h, Rc::new(Obj::Seq(na)));
                                self.hav.remove(&h);
                                changed = true;
                                continue;
                            }
                        }
                    }
                    if lab & !old != 0 {
                        let nm = fresh_fn("havoc");
                        let mut na = a.clone();
                        na.chain.truncate(plen);
                        na.chain.push(W::Havoc(nm.clone(), old | lab));
                        self.st.heap.insert(h, Rc::new(Obj::Seq(na)));
                        self.hav.insert(h, (nm, plen, guess));
                        changed = true;
                    }
                    continue;
                }
                let _ = name;
            }
            // generalise everything after the common prefix
            changed = true;
            let mut lab = WIDE;
            for w in a.chain[p.min(a.chain.len())..].iter().chain(b.chain[p..].iter()) {
                match w {
                    W::Set(_, v) | W::Fill(_, _, v) | W::Ins(_, v) => lab |= v.labels(),
                    W::Havoc(_, l) => lab |= l,
                    _ => {}
                }
            }
            if let SeqBase::Sym(o) = &a.base {
                lab |= labels(app(&format!("{}[]", obj_name(*o)), vec![Arg::L(Lin::k(0))], None, None, 0));
            }
            let first = !self.hav.contains_key(&h);
            let simple = a.chain[p..].iter().chain(b.chain[p..].iter()).all(|w| matches!(w, W::Set(..) | W::Fill(..)));
            let nm = fresh_fn("havoc");
            let mut na = a.clone();
            na.chain.truncate(p);
            na.chain.push(W::Havoc(nm.clone(), lab));
            self.st.heap.insert(h, Rc::new(Obj::Seq(na)));
            self.hav.insert(h, (nm, p, first && simple));
        }
        changed
    }
    /// the law of the elements written so far, if one iteration writes one element
    fn guess_fill(&mut self, h: u32, plen: usize, i: &Lin, y: &Val, sg: &mut Subst) -> Option<(W, bool)> {
        // i = v + c for a counter v
        let vs: Vec<(S, usize)> = self.gens.iter().copied().filter(|(v, _)| i.coef(*v) == 1).collect();
        if vs.len() != 1 {
            return None;
        }
        let v = vs[0].0;
        let rest = i.sub(&Lin::s(v));
        rest.is_const()?;
        // after the iteration the counter has moved past i
        if sg.sym(v) != Lin::s(v).plus(1) {
            return None;
        }
        let e = y.subst(&mut Subst::one(v, Lin::s(idx()).sub(&rest)));
        let mut bad = false;
        let gens: Vec<S> = self.gens.iter().map(|x| x.0).collect();
        e.for_lins(&mut |l| {
            for g in &gens {
                if l.has_deep(*g) {
                    bad = true
                }
            }
        });
        if bad {
            if std::env::var("NC_LOOP").is_ok() {
                eprintln!("    guess {e:?} mentions other variables");
            }
            return None;
        }
        let mut lo: Option<Lin> = None;
        let mut filled = false;
        for st in &self.inits {
            let ic = cells(st);
            let mut s0 = self.sigma(&ic);
            let end = s0.lin(i);
            let Some(Obj::Seq(q)) = st.heap.get(&h).map(|x| &**x) else { return None };
            let mut suffix = &q.chain[plen.min(q.chain.len())..];
            while let [W::Fill(..), rest @ ..] = suffix {
                suffix = rest;
                filled = true;
            }
            let start = match suffix.first() {
                Some(W::Set(k, _)) => k.clone(),
                None => end.clone(),
                _ => return None,
            };
            let mut at = start.clone();
            for w in suffix {
                let W::Set(k, x) = w else { return None };
                if *k != at || e.subst(&mut Subst::one(idx(), k.clone())) != *x {
                    return None;
                }
                at = at.plus(1);
            }
            if at != end {
                return None;
            }
            if lo.get_or_insert(start.clone()) != &start {
                return None;
            }
        }
        let lo = lo?;
        Some((W::Fill(lo, i.clone(), e), filled))
    }
    /// facts one more iteration establishes, if they also held on entry
    fn strengthen(&mut self, s: &State) -> bool {
        let sc = cells(s);
        let pairs: Vec<(S, Lin, Lin)> = self.gens.iter().map(|(v, i)| (*v, Lin::s(*v), sc[*i].clone())).collect();
        let (mut m, ok) = inverse(&pairs, |x| x.2.clone());
        if !ok {
            return false;
        }
        let mut sg = self.sigma(&sc);
        let mut added = false;
        for c in cons(&s.num) {
            let r = csub(&c, &mut m);
            if clin(&r).is_const().is_some() || holds(&self.st.num, &r) {
                continue;
            }
            if !no_foreign(&r, &self.gens, &[], &self.st.num, &self.st) {
                continue;
            }
            if !holds(&s.num, &csub(&r, &mut sg)) {
                continue;
            }
            let all = self.inits.iter().all(|i| {
                let ic = cells(i);
                let mut s0 = self.sigma(&ic);
                holds(&i.num, &csub(&r, &mut s0))
            });
            if all {
                put(&mut self.st.num, &r);
                added = true;
            }
        }
        added
    }
}
fn s_num(s: &State) -> Num {
    s.num.clone()
}
fn put(n: &mut Num, c: &Con) {
    match c {
        Con::Ge(l) => {
            n.add_ge(l);
        }
        Con::Ne(l) => {
            n.add_ne(l);
        }
    }
}
/// solves value = k*sym + c for the symbol, so facts about the symbol become facts about the variable
fn inverse(vars: &[(S, Lin, Lin)], val: impl Fn(&(S, Lin, Lin)) -> Lin) -> (Subst, bool) {
    let mut m: BTreeMap<S, Lin> = BTreeMap::new();
    let mut used: BTreeSet<S> = BTreeSet::new();
    for x in vars {
        let l = val(x);
        if l.t.len() == 1 && l.t[0].1.abs() == 1 && !used.contains(&l.t[0].0) {
            let (s, k) = l.t[0];
            used.insert(s);
            // w = k*s + c  =>  s = k*(w - c)
            m.insert(s, Lin::s(x.0).plus(-l.c).scale(k));
        }
    }
    let ok = !m.is_empty();
    (Subst::new(m), ok)
}
/// only mentions symbols that mean the same at every iteration
fn no_foreign(c: &Con, gens: &[(S, usize)], newv: &[(S, Lin, Lin)], old: &Num, s: &State) -> bool {
    let _ = (old, s);
    clin(c).t.iter().all(|(x, _)| {
        if gens.iter().any(|g| g.0 == *x) || newv.iter().any(|g| g.0 == *x) {
            return true;
        }
        match sym_kind(*x) {
            SymKind::Var(_, n) => n != "t",
            _ => true,
        }
    })
}

impl Interp {
    pub fn run_loop(&mut self, bi: &Rc<BodyInfo>, head: usize, init: Vec<State>) -> Out {
        let blocks = bi.loops[&head].clone();
        let dbg = std::env::var("NC_LOOP").is_ok();
        self.loops_seen.insert(format!("{}#{}", bi.name, head));
        let mut out = Out::default();
        let mut cur = init;
        let absorb = |out: &mut Out, o: Out| -> Vec<State> {
            for (t, v) in o.exits {
                out.exits.entry(t).or_default().extend(v);
            }
            out.rets.extend(o.rets);
            o.backs
        };
        for s in cur.iter_mut() {
            canon(s);
        }
        for round in 0..self.peel {
            if dbg {
                eprintln!("loop {}#{head} time {round}: {} states", bi.name, cur.len());
            }
            if cur.is_empty() || self.overflow {
                return out;
            }
            let o = self.region(bi, Some(&blocks), head, cur);
            cur = absorb(&mut out, o);
            for s in cur.iter_mut() {
                self.prune(s, head, bi);
                canon(s);
            }
            cur = self.merge(cur);
        }
        if cur.is_empty() || self.overflow {
            return out;
        }
        let mut invs: Vec<Inv> = vec![];
        for s in cur {
            let key = shape(&s);
            match invs.iter_mut().find(|i| i.key == key) {
                Some(i) => {
                    i.cover(&s, true, false);
                }
                None => invs.push(Inv::new(key, s)),
            }
        }
        if dbg {
            eprintln!("loop {}#{head}: {} shapes", bi.name, invs.len());
        }
        let mark = self.events.len();
        for round in 0..14 {
            if invs.len() > 40 {
                break;
            }
            self.events.truncate(mark);
            let starts: Vec<State> = invs.iter().map(|i| i.st.clone()).collect();
            let o = self.region(bi, Some(&blocks), head, starts);
            if self.overflow {
                return out;
            }
            let mut changed = false;
            for i in invs.iter_mut() {
                i.steps.clear();
                i.irregular.clear();
            }
            let mut backs = o.backs;
            for s in backs.iter_mut() {
                self.prune(s, head, bi);
                canon(s);
            }
            let backs = self.merge(backs);
            if dbg {
                eprintln!("  round {round}: {} invs, {} backs", invs.len(), backs.len());
            }
            for s in backs {
                let key = shape(&s);
                match invs.iter_mut().find(|i| i.key == key) {
                    Some(i) => changed |= i.cover(&s, false, round < 4),
                    None => {
                        if dbg {
                            eprintln!("  new shape");
                        }
                        invs.push(Inv::new(key, s));
                        changed = true
                    }
                }
            }
            if dbg {
                for i in &invs {
                    eprintln!("   inv gens {:?}: {}", i.gens.iter().map(|g| show(g.0)).collect::<Vec<_>>(), crate::roots::show_num(&i.st.num));
                }
            }
            if !changed {
                // variables that count iterations exactly are not approximations
                self.events.truncate(mark);
                let one = invs.len() == 1;
                let mut starts = vec![];
                for i in &invs {
                    let mut st = i.st.clone();
                    let mut m = BTreeMap::new();
                    for (v, _) in &i.gens {
                        let step = i.steps.get(v).cloned().unwrap_or_default();
                        let exact = one
                            && !i.irregular.contains(v)
                            && !i.lossy.contains(v)
                            && i.inits.len() == 1
                            && step.len() == 1
                            && step.iter().next().map_or(false, |k| k.abs() == 1)
                            && !i.st.tags.contains("approx");
                        let info = sym(*v);
                        let nv = fresh("n", info.lo, info.hi, if exact { info.labels & !WIDE } else { info.labels });
                        m.insert(*v, Lin::s(nv));
                    }
                    st.subst(&mut Subst::new(m));
                    st.tags.insert("gen".into());
                    starts.push(st);
                }
                let o = self.region(bi, Some(&blocks), head, starts);
                absorb(&mut out, o);
                return out;
            }
        }
        // no invariant found in time: forget
        self.events.truncate(mark);
        if dbg {
            eprintln!("loop {}#{head}: gave up", bi.name);
        }
        *self.unknown.entry(format!("no invariant for a loop in {}", bi.name)).or_default() += 1;
        self.overflow = true;
        out
    }
}
