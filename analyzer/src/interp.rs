//! Abstract interpreter over monomorphic MIR.
use crate::axioms::saturate;
use crate::mat::*;
use crate::num::*;
use crate::term::*;
use crate::val::*;
use rustc_public::mir::mono::*;
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::CrateDef;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;

pub type R = Vec<(State, Val)>;
pub type Hook = Rc<dyn Fn(&mut Interp, &Instance, &str, &[Val], &State) -> Option<R>>;

#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord)]
pub enum Verdict {
    Proved,
    Unproven,
    Definite,
}
#[derive(Clone, Debug)]
pub struct Event {
    pub rule: String,
    pub key: String,
    pub loc: String,
    pub verdict: Verdict,
    pub detail: String,
}

pub struct BodyInfo {
    pub body: Body,
    pub rpo: Vec<usize>,
    pub pos: Vec<usize>,
    /// innermost-first: loop head -> blocks
    pub loops: BTreeMap<usize, BTreeSet<usize>>,
    pub live: Vec<Vec<bool>>,
    pub borrowed: Vec<bool>,
    pub name: String,
}

pub struct Interp {
    bodies: HashMap<String, Option<Rc<BodyInfo>>>,
    pub events: Vec<Event>,
    pub hooks: Vec<Hook>,
    pub steps: u64,
    pub max_steps: u64,
    pub overflow: bool,
    pub unknown: BTreeMap<String, u64>,
    pub fns: BTreeMap<String, u64>,
    pub stack: Vec<String>,
    pub span: Vec<String>,
    pub peel: usize,
    pub cap: usize,
    pub trace: bool,
    pub exact: bool,
    pub loops_seen: BTreeSet<String>,
    pub opaque_ty: Vec<String>,
    pub inline: BTreeSet<String>,
    /// function-name prefixes never summarised as opaque
    /// byte searches leave a trace in the ghost state
    pub record_scans: bool,
    pub deadline: std::time::Instant,
}

pub fn succ(t: &TerminatorKind) -> Vec<usize> {
    use TerminatorKind::*;
    match t {
        Goto { target } => vec![*target],
        SwitchInt { targets, .. } => {
            let mut v = targets.all_targets();
            v.sort();
            v.dedup();
            v
        }
        Drop { target, .. } | Assert { target, .. } => vec![*target],
        Call { target, .. } => target.iter().copied().collect(),
        _ => vec![],
    }
}

fn place_uses(p: &Place, f: &mut dyn FnMut(usize)) {
    f(p.local);
    for e in &p.projection {
        if let ProjectionElem::Index(l) = e {
            f(*l)
        }
    }
}
fn op_uses(o: &Operand, f: &mut dyn FnMut(usize)) {
    match o {
        Operand::Copy(p) | Operand::Move(p) => place_uses(p, f),
        _ => {}
    }
}
fn rv_uses(r: &Rvalue, f: &mut dyn FnMut(usize)) {
    match r {
        Rvalue::AddressOf(_, p) | Rvalue::CopyForDeref(p) | Rvalue::Discriminant(p) | Rvalue::Len(p) | Rvalue::Ref(_, _, p) => place_uses(p, f),
        Rvalue::Aggregate(_, v) => v.iter().for_each(|o| op_uses(o, f)),
        Rvalue::BinaryOp(_, a, b) | Rvalue::CheckedBinaryOp(_, a, b) => {
            op_uses(a, f);
            op_uses(b, f)
        }
        Rvalue::Cast(_, o, _) | Rvalue::Repeat(o, _) | Rvalue::UnaryOp(_, o) => op_uses(o, f),
        Rvalue::Use(o, ..) => op_uses(o, f),
        Rvalue::Reborrow(_, _, p) => place_uses(p, f),
        _ => {}
    }
}

impl BodyInfo {
    pub fn new(body: Body, name: String) -> BodyInfo {
        let n = body.blocks.len();
        let succs: Vec<Vec<usize>> = body.blocks.iter().map(|b| succ(&b.terminator.kind)).collect();
        // post order
        let mut seen = vec![false; n];
        let mut post = vec![];
        let mut stack = vec![(0usize, 0usize)];
        seen[0] = true;
        while let Some((b, i)) = stack.pop() {
            if i < succs[b].len() {
                stack.push((b, i + 1));
                let s = succs[b][i];
                if !seen[s] {
                    seen[s] = true;
                    stack.push((s, 0));
                }
            } else {
                post.push(b);
            }
        }
        let rpo: Vec<usize> = post.into_iter().rev().collect();
        let mut pos = vec![usize::MAX; n];
        for (i, b) in rpo.iter().enumerate() {
            pos[*b] = i;
        }
        let mut preds = vec![vec![]; n];
        for b in &rpo {
            for s in &succs[*b] {
                preds[*s].push(*b);
            }
        }
        // dominators
        let mut dom: Vec<Option<BTreeSet<usize>>> = vec![None; n];
        dom[0] = Some([0].into_iter().collect());
        let mut ch = true;
        while ch {
            ch = false;
            for b in rpo.iter().skip(1) {
                let mut d: Option<BTreeSet<usize>> = None;
                for p in &preds[*b] {
                    if let Some(pd) = &dom[*p] {
                        d = Some(match d {
                            None => pd.clone(),
                            Some(x) => x.intersection(pd).copied().collect(),
                        });
                    }
                }
                if let Some(mut d) = d {
                    d.insert(*b);
                    if dom[*b].as_ref() != Some(&d) {
                        dom[*b] = Some(d);
                        ch = true;
                    }
                }
            }
        }
        let mut loops: BTreeMap<usize, BTreeSet<usize>> = BTreeMap::new();
        for b in &rpo {
            for h in &succs[*b] {
                if dom[*b].as_ref().map_or(false, |d| d.contains(h)) {
                    let l = loops.entry(*h).or_default();
                    l.insert(*h);
                    let mut w = vec![*b];
                    while let Some(x) = w.pop() {
                        if l.insert(x) {
                            w.extend(preds[x].iter().copied());
                        }
                    }
                }
            }
        }
        // borrowed locals and liveness
        let nl = body.locals().len();
        let mut borrowed = vec![false; nl];
        let mut gen = vec![vec![false; nl]; n];
        let mut kill = vec![vec![false; nl]; n];
        for b in &rpo {
            let blk = &body.blocks[*b];
            let mut def = |l: usize, g: &Vec<bool>, k: &mut Vec<bool>| {
                if !g[l] {
                    k[l] = true
                }
            };
            let mut usef = |l: usize, g: &mut Vec<bool>, k: &Vec<bool>| {
                if !k[l] {
                    g[l] = true
                }
            };
            let (mut g, mut k) = (vec![false; nl], vec![false; nl]);
            for s in &blk.statements {
                if let StatementKind::Assign(p, r) = &s.kind {
                    rv_uses(r, &mut |l| usef(l, &mut g, &k));
                    match r {
                        Rvalue::Ref(_, _, q) | Rvalue::AddressOf(_, q) | Rvalue::Reborrow(_, _, q) => {
                            if !q.projection.iter().any(|e| matches!(e, ProjectionElem::Deref)) {
                                borrowed[q.local] = true
                            }
                        }
                        _ => {}
                    }
                    if p.projection.is_empty() {
                        def(p.local, &g, &mut k);
                    } else {
                        place_uses(p, &mut |l| usef(l, &mut g, &k));
                    }
                }
            }
            match &blk.terminator.kind {
                TerminatorKind::SwitchInt { discr, .. } => op_uses(discr, &mut |l| usef(l, &mut g, &k)),
                TerminatorKind::Return => usef(0, &mut g, &k),
                TerminatorKind::Call { func, args, destination, .. } => {
                    op_uses(func, &mut |l| usef(l, &mut g, &k));
                    args.iter().for_each(|a| op_uses(a, &mut |l| usef(l, &mut g, &k)));
                    if destination.projection.is_empty() {
                        def(destination.local, &g, &mut k);
                    } else {
                        place_uses(destination, &mut |l| usef(l, &mut g, &k));
                    }
                }
                TerminatorKind::Assert { cond, msg, .. } => {
                    op_uses(cond, &mut |l| usef(l, &mut g, &k));
                    let mut f = |o: &Operand| op_uses(o, &mut |l| usef(l, &mut g, &k));
                    match msg {
                        AssertMessage::BoundsCheck { len, index } => {
                            f(len);
                            f(index)
                        }
                        AssertMessage::Overflow(_, a, b) => {
                            f(a);
                            f(b)
                        }
                        AssertMessage::OverflowNeg(a) | AssertMessage::DivisionByZero(a) | AssertMessage::RemainderByZero(a) => f(a),
                        _ => {}
                    }
                }
                _ => {}
            }
            gen[*b] = g;
            kill[*b] = k;
        }
        let mut live = vec![vec![false; nl]; n];
        let mut ch = true;
        while ch {
            ch = false;
            for b in rpo.iter().rev() {
                let mut v = vec![false; nl];
                for s in &succs[*b] {
                    for l in 0..nl {
                        v[l] |= live[*s][l];
                    }
                }
                for l in 0..nl {
                    v[l] = gen[*b][l] || (v[l] && !kill[*b][l]);
                }
                if v != live[*b] {
                    live[*b] = v;
                    ch = true;
                }
            }
        }
        BodyInfo { body, rpo, pos, loops, live, borrowed, name }
    }
}

#[derive(Default)]
pub struct Out {
    pub exits: BTreeMap<usize, Vec<State>>,
    pub backs: Vec<State>,
    pub rets: Vec<State>,
}

pub fn def_path(i: &Instance) -> String {
    i.def.name().to_string()
}
pub fn is_local(i: &Instance) -> bool {
    i.def.krate().is_local
}
/// readable function name for reports: path without the crate
pub fn short(n: &str) -> String {
    n.to_string()
}

impl Interp {
    pub fn new() -> Interp {
        Interp {
            bodies: HashMap::new(),
            events: vec![],
            hooks: vec![],
            steps: 0,
            max_steps: 3_000_000,
            overflow: false,
            unknown: BTreeMap::new(),
            fns: BTreeMap::new(),
            stack: vec![],
            span: vec![],
            peel: 2,
            cap: 96,
            trace: std::env::var("NC_TRACE").is_ok(),
            exact: false,
            loops_seen: BTreeSet::new(),
            opaque_ty: vec!["CharClass".into()],
            inline: BTreeSet::new(),
            record_scans: false,
            deadline: std::time::Instant::now() + std::time::Duration::from_secs(600),
        }
    }

    pub fn body_of(&mut self, i: &Instance) -> Option<Rc<BodyInfo>> {
        let key = format!("{}|{:?}", i.mangled_name(), i.kind);
        if let Some(b) = self.bodies.get(&key) {
            return b.clone();
        }
        let b = if i.has_body() { i.body() } else { None };
        let b = b.map(|b| Rc::new(BodyInfo::new(b, def_path(i))));
        self.bodies.insert(key, b.clone());
        b
    }

    // ------------------------------------------------------------ conditions
    pub fn assume(&mut self, mut st: State, c: &Cond) -> Vec<State> {
        match c {
            Cond::T => vec![st],
            Cond::F => vec![],
            Cond::Ge(l) => {
                if st.num.add_ge(l) {
                    vec![st]
                } else {
                    vec![]
                }
            }
            Cond::Eq(l) => {
                if st.num.add_eq(l) {
                    if l.t.len() == 1 && l.t[0].1.abs() == 1 && is_var(l.t[0].0) {
                        // keep
                    }
                    vec![st]
                } else {
                    vec![]
                }
            }
            Cond::Ne(l) => {
                if st.num.entails_eq(l) {
                    return vec![];
                }
                if st.num.add_ne(l) {
                    vec![st]
                } else {
                    vec![]
                }
            }
            Cond::And(v) => {
                let mut cur = vec![st];
                for c in v {
                    cur = cur.into_iter().flat_map(|s| self.assume(s, c)).collect();
                }
                cur
            }
            Cond::Or(v) => {
                let mut out = vec![];
                let mut rest = vec![st];
                for c in v {
                    let mut nrest = vec![];
                    for s in rest {
                        out.extend(self.assume(s.clone(), c));
                        nrest.extend(self.assume(s, &c.not()));
                    }
                    rest = nrest;
                    if rest.is_empty() {
                        break;
                    }
                }
                out
            }
            Cond::Unk(_) => {
                st.tags.insert("approx".into());
                vec![st]
            }
        }
    }
    pub fn entails(&self, n: &Num, c: &Cond) -> bool {
        if n.bot {
            return true;
        }
        match c {
            Cond::T => true,
            Cond::F | Cond::Unk(_) => false,
            Cond::Ge(l) => n.entails_ge(l),
            Cond::Eq(l) => n.entails_eq(l),
            Cond::Ne(l) => n.entails_ne(l),
            Cond::And(v) => v.iter().all(|c| self.entails(n, c)),
            Cond::Or(v) => {
                if v.iter().any(|c| self.entails(n, c)) {
                    return true;
                }
                // refute the negation
                let mut s = State::new();
                s.num = n.clone();
                let mut cur = vec![s];
                for c in v {
                    let nc = c.not();
                    let mut nx = vec![];
                    for s in cur {
                        nx.extend(Interp::assume_num(&s.num, &nc).into_iter().map(|num| {
                            let mut t = State::new();
                            t.num = num;
                            t
                        }));
                    }
                    cur = nx;
                    if cur.is_empty() {
                        return true;
                    }
                }
                cur.is_empty()
            }
        }
    }
    pub fn assume_num(n: &Num, c: &Cond) -> Vec<Num> {
        match c {
            Cond::T | Cond::Unk(_) => vec![n.clone()],
            Cond::F => vec![],
            Cond::Ge(l) => {
                let mut m = n.clone();
                if m.add_ge(l) {
                    vec![m]
                } else {
                    vec![]
                }
            }
            Cond::Eq(l) => {
                let mut m = n.clone();
                if m.add_eq(l) {
                    vec![m]
                } else {
                    vec![]
                }
            }
            Cond::Ne(l) => {
                if n.entails_eq(l) {
                    return vec![];
                }
                let mut m = n.clone();
                if m.add_ne(l) {
                    vec![m]
                } else {
                    vec![]
                }
            }
            Cond::And(v) => {
                let mut cur = vec![n.clone()];
                for c in v {
                    cur = cur.into_iter().flat_map(|m| Interp::assume_num(&m, c)).collect();
                }
                cur
            }
            Cond::Or(v) => v.iter().flat_map(|c| Interp::assume_num(n, c)).collect(),
        }
    }
    fn cond_lins(c: &Cond) -> Vec<Lin> {
        let mut v = vec![];
        c.lins(&mut v);
        v
    }
    /// proved / definite violation / undecided
    pub fn judge(&self, st: &State, c: &Cond) -> Verdict {
        if self.entails(&st.num, c) {
            return Verdict::Proved;
        }
        let goals = Interp::cond_lins(c);
        let sat = saturate(&st.num, &goals);
        if self.entails(&sat, c) {
            return Verdict::Proved;
        }
        // congruence: rewrite with what is known to be equal
        if let Some((n2, c2)) = Interp::solve_eqs(&sat, c) {
            let c2 = c2.norm();
            if n2.bot || c2 == Cond::T || self.entails(&n2, &c2) || self.entails(&saturate(&n2, &Interp::cond_lins(&c2)), &c2) {
                return Verdict::Proved;
            }
        }
        if st.poison.is_some() || st.tags.contains("approx") || self.overflow {
            return Verdict::Unproven;
        }
        let neg = Interp::assume_num(&sat, &c.not());
        for n in neg {
            // more axiom instances under the negation
            let n2 = saturate(&n, &goals);
            if n2.bot {
                continue;
            }
            // labels in the connected component
            let mut vars: BTreeSet<S> = goals.iter().flat_map(|l| l.t.iter().map(|x| x.0)).collect();
            loop {
                let k = vars.len();
                for l in n2.ge.iter().chain(n2.ne.iter()) {
                    if l.t.iter().any(|(s, _)| vars.contains(s)) {
                        vars.extend(l.t.iter().map(|x| x.0));
                    }
                }
                if vars.len() == k {
                    break;
                }
            }
            if vars.iter().all(|s| labels(*s) & (UNK | WIDE) == 0) && c.labels() & (UNK | WIDE) == 0 {
                return Verdict::Definite;
            }
            return Verdict::Unproven;
        }
        Verdict::Proved
    }
    /// substitutes away symbols the constraints determine
    pub fn solve_eqs(n: &Num, c: &Cond) -> Option<(Num, Cond)> {
        let (mut n, mut c) = (n.clone(), c.clone());
        let mut any = false;
        for _ in 0..12 {
            let mut pick = None;
            for l in n.ge.iter() {
                let scalar = l.t.len() == 1 && matches!(sym_kind(l.t[0].0), SymKind::App(_, a) if a.is_empty());
                if l.t.is_empty() || !(n.ge.contains(&l.neg()) || scalar && n.entails_ge(&l.neg())) {
                    continue;
                }
                for (s, k) in &l.t {
                    if k.abs() != 1 {
                        continue;
                    }
                    // s = -(l - k s)/k
                    let rest = l.axpy(-k, &Lin::s(*s)).scale(-k);
                    if rest.t.iter().any(|x| sym_has(x.0, *s)) {
                        continue;
                    }
                    // what occurs inside other terms goes first
                    let rank = match sym_kind(*s) {
                        SymKind::App(_, a) if a.is_empty() => 1,
                        SymKind::App(..) => 2,
                        _ => 0,
                    };
                    if pick.as_ref().map_or(true, |(r, _, _): &(i32, S, Lin)| rank < *r) {
                        pick = Some((rank, *s, rest));
                    }
                }
            }
            let Some((_, s, e)) = pick else { break };
            any = true;
            let mut m = Subst::one(s, e);
            n.subst(&mut m);
            c = c.subst(&mut m);
            if n.bot || !n.feasible() {
                n.bot = true;
                break;
            }
        }
        any.then_some((n, c))
    }
    /// judge, but only what holds in the first iterations of a loop can be a definite violation
    pub fn strict(&self, st: &State, c: &Cond) -> Verdict {
        match self.judge(st, c) {
            // nor can what depends on a value the analysis does not know
            Verdict::Definite if st.tags.contains("gen") || st.num.ge.iter().chain(&st.num.ne).any(|l| l.t.iter().any(|(s, _)| labels(*s) & UNK != 0)) => Verdict::Unproven,
            v => v,
        }
    }
    pub fn where_(&self) -> (String, String) {
        // innermost local function
        for (n, s) in self.stack.iter().zip(self.span.iter()).rev() {
            if n.starts_with("norm::") || n.contains("norm::") {
                return (n.clone(), s.clone());
            }
        }
        (self.stack.last().cloned().unwrap_or_default(), self.span.last().cloned().unwrap_or_default())
    }
    pub fn event(&mut self, rule: &str, what: &str, verdict: Verdict, detail: String) {
        let (f, loc) = self.where_();
        self.events.push(Event { rule: rule.into(), key: format!("{rule}: {what} in {}", short(&f)), loc, verdict, detail });
    }
    pub fn oblige(&mut self, st: State, c: &Cond, rule: &str, what: &str) -> Vec<State> {
        let v = self.strict(&st, c);
        let detail = if v == Verdict::Proved {
            String::new()
        } else {
            format!("needs {c:?}; {}; via {}", self.explain(&st, c), self.stack.iter().map(|s| s.rsplit("::").next().unwrap_or("")).collect::<Vec<_>>().join(">"))
        };
        self.event(rule, what, v, detail);
        self.assume(st, c)
    }
    pub fn explain(&self, st: &State, c: &Cond) -> String {
        let goals = Interp::cond_lins(c);
        let mut vars: BTreeSet<S> = goals.iter().flat_map(|l| l.t.iter().map(|x| x.0)).collect();
        let mut out = vec![];
        for _ in 0..2 {
            let mut add = BTreeSet::new();
            for l in st.num.ge.iter() {
                if l.t.iter().any(|(s, _)| vars.contains(s)) {
                    let t = format!("{l:?}>=0");
                    if !out.contains(&t) && out.len() < 14 {
                        out.push(t);
                    }
                    add.extend(l.t.iter().map(|x| x.0));
                }
            }
            vars.extend(add);
        }
        format!("known: {}{}{}", out.join(" "), if let Some(p) = &st.poison { format!(" [{p}]") } else { String::new() }, if st.tags.is_empty() { String::new() } else { format!(" {:?}", st.tags) })
    }

    // ------------------------------------------------------------ memory
    fn root(&mut self, st: &State, b: &Base) -> Option<Val> {
        match b {
            Base::Local(f, l) => st.frames.get(*f).and_then(|f| f.locals.get(*l)).cloned(),
            Base::Heap(h) => match st.heap.get(h).map(|o| &**o) {
                Some(Obj::Cell(v)) => Some(v.clone()),
                _ => None,
            },
            _ => None,
        }
    }
    pub fn walk(&mut self, st: State, v: Val, path: &[Step]) -> R {
        if path.is_empty() {
            return vec![(st, v)];
        }
        match (&v, &path[0]) {
            (Val::Agg(a), Step::Field(i)) => match a.get(*i) {
                Some(x) => {
                    let x = x.clone();
                    self.walk(st, x, &path[1..])
                }
                None => vec![(st, Val::Top(UNK))],
            },
            (Val::Clos(_, _, a), Step::Field(i)) => {
                let x = a.get(*i).cloned().unwrap_or(Val::Top(UNK));
                self.walk(st, x, &path[1..])
            }
            (Val::Enum(_, m), Step::Variant(k)) => {
                let x = match m.get(&(*k as u32)) {
                    Some(f) => Val::agg(f.clone()),
                    None => Val::Undef,
                };
                self.walk(st, x, &path[1..])
            }
            // transparent wrappers around pointers
            (Val::Ptr(_), Step::Field(_)) | (Val::It(_), Step::Field(_)) => self.walk(st, v.clone(), &path[1..]),
            (Val::Agg(a), Step::Idx(i)) => {
                let a = a.clone();
                if let Some(c) = i.is_const() {
                    let x = a.get(c as usize).cloned().unwrap_or(Val::Top(UNK));
                    return self.walk(st, x, &path[1..]);
                }
                let mut out = vec![];
                if a.len() <= 32 {
                    for (k, x) in a.iter().enumerate() {
                        for s in self.assume(st.clone(), &Cond::Eq(i.plus(-(k as i128)))) {
                            out.extend(self.walk(s, x.clone(), &path[1..]));
                        }
                    }
                } else {
                    out.push((st, Val::Top(UNK)));
                }
                out
            }
            (Val::Top(l), _) => vec![(st, Val::Top(*l))],
            (Val::Undef, _) => vec![(st, Val::Undef)],
            _ => vec![(st, Val::Top(UNK))],
        }
    }
    pub fn read(&mut self, st: State, p: &Ptr) -> R {
        match &p.base {
            Base::Sym(o) => {
                let o = *o;
                let name = obj_name(o);
                match p.path.first() {
                    Some(Step::Idx(i)) => {
                        let Some(t) = obj_ty(&name) else { return vec![(st, Val::Top(UNK))] };
                        if let Some(tab) = table(&name) {
                            if let Some(c) = i.is_const() {
                                let v = tab.get(c as usize).cloned().unwrap_or(Val::Top(UNK));
                                return self.walk(st, v, &p.path[1..]);
                            }
                            if tab.len() <= 16 {
                                return self.walk(st, Val::Agg(tab), &p.path);
                            }
                        }
                        let v = elem(t, o, i);
                        self.walk(st, v, &p.path[1..])
                    }
                    _ => {
                        if let Some(v) = CONSTS.with(|c| c.borrow().get(&name).cloned()) {
                            return self.walk(st, v, &p.path);
                        }
                        let Some(t) = obj_ty(&name) else { return vec![(st, Val::Top(UNK))] };
                        let v = single(t, o);
                        self.walk(st, v, &p.path)
                    }
                }
            }
            Base::Bytes(o) => match p.path.first() {
                Some(Step::Idx(i)) => {
                    let n = obj_name(*o);
                    if let (Some(s), Some(c)) = (n.strip_prefix("str:"), i.is_const()) {
                        if let Some(b) = s.as_bytes().get(c as usize) {
                            return vec![(st, Val::int(*b as i128))];
                        }
                    }
                    vec![(st, byte_at(*o, i))]
                }
                _ => vec![(st, Val::Top(UNK))],
            },
            b => {
                if let Base::Heap(h) = b {
                    if let Some(Obj::Seq(_)) = st.heap.get(h).map(|o| &**o) {
                        let Some(Step::Idx(i)) = p.path.first() else { return vec![(st, Val::Top(UNK))] };
                        let mut out = vec![];
                        for (s, v) in self.seq_read(st, *h, i) {
                            out.extend(self.walk(s, v, &p.path[1..]));
                        }
                        return out;
                    }
                }
                match self.root(&st, b) {
                    Some(v) => self.walk(st, v, &p.path),
                    None => vec![(st, Val::Top(UNK))],
                }
            }
        }
    }
    pub fn seq_read(&mut self, st: State, h: u32, i: &Lin) -> R {
        let Some(Obj::Seq(seq)) = st.heap.get(&h).map(|o| (**o).clone()) else { return vec![(st, Val::Top(UNK))] };
        self.chain_read(st, &seq, seq.chain.len(), i.clone())
    }
    pub fn chain_read(&mut self, st: State, seq: &Seq, n: usize, i: Lin) -> R {
        if n == 0 {
            return match &seq.base {
                SeqBase::Sym(o) => {
                    let v = elem(seq.ty, *o, &i);
                    vec![(st, v)]
                }
                SeqBase::Const(v) => {
                    if let Some(c) = i.is_const() {
                        return vec![(st, v.get(c as usize).cloned().unwrap_or(Val::Undef))];
                    }
                    if !v.is_empty() && v.iter().all(|x| *x == v[0]) {
                        return vec![(st, v[0].clone())];
                    }
                    self.walk(st, Val::Agg(v.clone()), &[Step::Idx(i)])
                }
                SeqBase::Undef => vec![(st, Val::Undef)],
            };
        }
        let mut out = vec![];
        match &seq.chain[n - 1] {
            W::Set(j, v) => {
                let d = i.sub(j);
                for s in self.assume(st.clone(), &Cond::Eq(d.clone()).norm()) {
                    out.push((s, v.clone()));
                }
                for s in self.assume(st, &Cond::Ne(d).norm()) {
                    out.extend(self.chain_read(s, seq, n - 1, i.clone()));
                }
            }
            W::Fill(lo, hi, v) => {
                let inside = Cond::And(vec![Cond::Ge(i.sub(lo)), Cond::Ge(hi.sub(&i).plus(-1))]);
                for s in self.assume(st.clone(), &inside) {
                    out.push((s, v.subst(&mut Subst::one(idx(), i.clone()))));
                }
                for s in self.assume(st, &inside.not()) {
                    out.extend(self.chain_read(s, seq, n - 1, i.clone()));
                }
            }
            W::Ins(p, v) => {
                let d = i.sub(p);
                for s in self.assume(st.clone(), &Cond::Eq(d.clone()).norm()) {
                    out.push((s, v.clone()));
                }
                for s in self.assume(st.clone(), &Cond::Ge(d.neg().plus(-1)).norm()) {
                    out.extend(self.chain_read(s, seq, n - 1, i.clone()));
                }
                for s in self.assume(st, &Cond::Ge(d.plus(-1)).norm()) {
                    out.extend(self.chain_read(s, seq, n - 1, i.plus(-1)));
                }
            }
            W::Del(p, q) => {
                // elements p..q removed
                let d = i.sub(p);
                for s in self.assume(st.clone(), &Cond::Ge(d.neg().plus(-1)).norm()) {
                    out.extend(self.chain_read(s, seq, n - 1, i.clone()));
                }
                for s in self.assume(st, &Cond::Ge(d).norm()) {
                    out.extend(self.chain_read(s, seq, n - 1, i.add(q).sub(p)));
                }
            }
            W::Havoc(name, l) => {
                set_obj_ty(name, seq.ty);
                obj_label(name, *l);
                let v = elem(seq.ty, obj(name, vec![]), &i);
                out.push((st, v));
            }
        }
        out
    }
    /// replaces the value at `path` inside `v`
    fn update(&mut self, st: State, v: Val, path: &[Step], new: Val) -> R {
        if path.is_empty() {
            return vec![(st, new)];
        }
        match (v, &path[0]) {
            (Val::Agg(a), Step::Field(i)) => {
                let mut out = vec![];
                let cur = a.get(*i).cloned().unwrap_or(Val::Undef);
                for (s, x) in self.update(st, cur, &path[1..], new) {
                    let mut b = (*a).clone();
                    if *i < b.len() {
                        b[*i] = x;
                    }
                    out.push((s, Val::agg(b)));
                }
                out
            }
            (Val::Clos(d, g, a), Step::Field(i)) => {
                let mut out = vec![];
                let cur = a.get(*i).cloned().unwrap_or(Val::Undef);
                for (s, x) in self.update(st, cur, &path[1..], new) {
                    let mut b = (*a).clone();
                    if *i < b.len() {
                        b[*i] = x;
                    }
                    out.push((s, Val::Clos(d, g.clone(), Rc::new(b))));
                }
                out
            }
            (Val::Enum(d, m), Step::Variant(k)) => {
                let Some(Step::Field(f)) = path.get(1) else { return vec![(st, Val::Top(UNK))] };
                let k = *k as u32;
                let cur = m.get(&k).and_then(|v| v.get(*f)).cloned().unwrap_or(Val::Undef);
                let mut out = vec![];
                for (s, x) in self.update(st, cur, &path[2..], new) {
                    let mut mm = (*m).clone();
                    let e = mm.entry(k).or_default();
                    while e.len() <= *f {
                        e.push(Val::Undef);
                    }
                    e[*f] = x;
                    out.push((s, Val::Enum(d.clone(), Rc::new(mm))));
                }
                out
            }
            (Val::Agg(a), Step::Idx(i)) => {
                if let Some(c) = i.is_const() {
                    let cur = a.get(c as usize).cloned().unwrap_or(Val::Undef);
                    let mut out = vec![];
                    for (s, x) in self.update(st, cur, &path[1..], new) {
                        let mut b = (*a).clone();
                        if (c as usize) < b.len() {
                            b[c as usize] = x;
                        }
                        out.push((s, Val::agg(b)));
                    }
                    return out;
                }
                let mut out = vec![];
                for k in 0..a.len().min(32) {
                    for s in self.assume(st.clone(), &Cond::Eq(i.plus(-(k as i128)))) {
                        out.extend(self.update(s, Val::Agg(a.clone()), &[vec![Step::Idx(Lin::k(k as i128))], path[1..].to_vec()].concat(), new.clone()));
                    }
                }
                out
            }
            (Val::Undef, Step::Field(i)) => {
                let mut b = vec![Val::Undef; *i + 1];
                let mut out = vec![];
                for (s, x) in self.update(st, Val::Undef, &path[1..], new) {
                    b[*i] = x;
                    out.push((s, Val::agg(b.clone())));
                }
                out
            }
            (v, _) => {
                let mut s = st;
                s.poison("store through an unmodelled value");
                vec![(s, v)]
            }
        }
    }
    pub fn write(&mut self, mut st: State, p: &Ptr, v: Val) -> Vec<State> {
        match &p.base {
            Base::Local(f, l) => {
                if p.path.is_empty() {
                    Rc::make_mut(&mut st.frames[*f]).locals[*l] = v;
                    return vec![st];
                }
                let cur = st.frames[*f].locals[*l].clone();
                let mut out = vec![];
                for (mut s, x) in self.grow_update(st, cur, &p.path, v) {
                    Rc::make_mut(&mut s.frames[*f]).locals[*l] = x;
                    out.push(s);
                }
                out
            }
            Base::Heap(h) => {
                let h = *h;
                match st.heap.get(&h).map(|o| (**o).clone()) {
                    Some(Obj::Cell(c)) => {
                        let mut out = vec![];
                        for (mut s, x) in self.grow_update(st, c, &p.path, v) {
                            s.heap.insert(h, Rc::new(Obj::Cell(x)));
                            out.push(s);
                        }
                        out
                    }
                    Some(Obj::Seq(_)) => {
                        let Some(Step::Idx(i)) = p.path.first().cloned() else {
                            st.poison("store to a whole sequence");
                            return vec![st];
                        };
                        if p.path.len() == 1 {
                            Interp::seq_push(&mut st, h, W::Set(i, v));
                            return vec![st];
                        }
                        let mut out = vec![];
                        for (s, cur) in self.seq_read(st, h, &i) {
                            for (mut s, x) in self.update(s, cur, &p.path[1..], v.clone()) {
                                Interp::seq_push(&mut s, h, W::Set(i.clone(), x));
                                out.push(s);
                            }
                        }
                        out
                    }
                    None => {
                        st.poison("store to unknown memory");
                        vec![st]
                    }
                }
            }
            _ => {
                st.poison("store to symbolic memory");
                vec![st]
            }
        }
    }
    fn grow_update(&mut self, st: State, cur: Val, path: &[Step], v: Val) -> R {
        self.update(st, cur, path, v)
    }
    pub fn seq_push(st: &mut State, h: u32, w: W) {
        if let Some(Obj::Seq(s)) = st.heap.get(&h).map(|o| (**o).clone()) {
            let mut s = s;
            if let W::Set(i, _) = &w {
                while let Some(W::Set(j, _)) = s.chain.last() {
                    if i == j {
                        s.chain.pop();
                    } else {
                        break;
                    }
                }
            }
            s.chain.push(w);
            st.heap.insert(h, Rc::new(Obj::Seq(s)));
        }
    }

    // ------------------------------------------------------------ places
    fn as_ptr(v: &Val) -> Option<Ptr> {
        match v {
            Val::Ptr(p) => Some(p.clone()),
            Val::Agg(a) => a.iter().find_map(|x| Interp::as_ptr(x)),
            _ => None,
        }
    }
    pub fn place(&mut self, st: State, p: &Place, bi: &BodyInfo) -> Vec<(State, Ptr)> {
        let f = st.frames.len() - 1;
        let mut cur = vec![(st, Ptr::to(Base::Local(f, p.local)))];
        for (k, e) in p.projection.iter().enumerate() {
            let mut nx = vec![];
            for (mut st, q) in cur {
                match e {
                    ProjectionElem::Deref => {
                        for (mut s, v) in self.read(st, &q) {
                            match Interp::as_ptr(&v) {
                                Some(r) => nx.push((s, r)),
                                None => {
                                    s.poison("dereference of an unmodelled pointer");
                                    nx.push((s, Ptr::to(Base::Heap(0))));
                                }
                            }
                        }
                    }
                    ProjectionElem::Field(i, _) => nx.push((st, q.push(Step::Field(*i)))),
                    ProjectionElem::Downcast(v) => {
                        let n = format!("{v:?}").chars().filter(|c| c.is_ascii_digit()).collect::<String>().parse().unwrap_or(0);
                        nx.push((st, q.push(Step::Variant(n))))
                    }
                    ProjectionElem::Index(l) => match st.local(*l).clone() {
                        Val::Int(i) => nx.push((st, q.elem(&i))),
                        _ => {
                            st.poison("index by an unmodelled value");
                            nx.push((st, Ptr::to(Base::Heap(0))));
                        }
                    },
                    ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                        let len = self.seq_len(&st, &q, &p.projection[..k], p.local, bi);
                        let i = if *from_end { len.plus(-(*offset as i128)) } else { Lin::k(*offset as i128) };
                        nx.push((st, q.elem(&i)));
                    }
                    ProjectionElem::Subslice { from, to, from_end } => {
                        let len = self.seq_len(&st, &q, &p.projection[..k], p.local, bi);
                        let off = q.view.as_ref().map_or(Lin::k(0), |v| v.0.clone());
                        let end = if *from_end { len.plus(-(*to as i128)) } else { Lin::k(*to as i128) };
                        let mut r = q.clone();
                        r.view = Some((off.plus(*from as i128), end.plus(-(*from as i128))));
                        nx.push((st, r));
                    }
                    ProjectionElem::OpaqueCast(_) => nx.push((st, q)),
                }
            }
            cur = nx;
        }
        cur
    }
    fn seq_len(&self, _st: &State, q: &Ptr, proj: &[ProjectionElem], local: usize, bi: &BodyInfo) -> Lin {
        if let Some((_, n)) = &q.view {
            return n.clone();
        }
        let t = Place { local, projection: proj.to_vec() }.ty(bi.body.locals());
        if let Ok(t) = t {
            if let Some(RigidTy::Array(_, n)) = rigid(t) {
                return Lin::k(n.eval_target_usize().unwrap_or(0) as i128);
            }
        }
        Lin::s(fresh("len", Some(0), None, UNK))
    }
    pub fn read_place(&mut self, st: State, p: &Place, bi: &BodyInfo) -> R {
        if p.projection.is_empty() {
            let v = st.local(p.local).clone();
            return vec![(st, v)];
        }
        let mut out = vec![];
        for (s, q) in self.place(st, p, bi) {
            // a place which is itself an unsized slice cannot be read
            out.extend(self.read(s, &q));
        }
        out
    }
    pub fn operand(&mut self, mut st: State, o: &Operand, bi: &BodyInfo) -> R {
        match o {
            Operand::Copy(p) | Operand::Move(p) => self.read_place(st, p, bi),
            Operand::Constant(c) => {
                let v = self.constant(&mut st, &c.const_);
                vec![(st, v)]
            }
            Operand::RuntimeChecks(_) => vec![(st, Val::bool(false))],
        }
    }
    fn constant(&mut self, st: &mut State, c: &MirConst) -> Val {
        let t = c.ty();
        match c.kind() {
            ConstantKind::Allocated(a) => decode(st, a, 0, t),
            ConstantKind::ZeroSized => self.zst(t),
            ConstantKind::Ty(tc) => match tc.kind() {
                TyConstKind::Value(t, a) => decode(st, a, 0, *t),
                TyConstKind::ZSTValue(t) => self.zst(*t),
                _ => Val::Top(UNK),
            },
            _ => Val::Top(UNK),
        }
    }
    fn zst(&mut self, t: Ty) -> Val {
        match rigid(t) {
            Some(RigidTy::FnDef(d, a)) => match Instance::resolve(d, &a) {
                Ok(i) => Val::Fn(FnVal::Inst(i)),
                _ => Val::Top(UNK),
            },
            Some(RigidTy::Closure(d, a)) => Val::Clos(d, a, Rc::new(vec![])),
            Some(RigidTy::Adt(d, _)) if d.kind() == AdtKind::Struct => {
                let f: Vec<Val> = field_tys(t, 0).iter().map(|(_, ft)| self.zst(*ft)).collect();
                Val::agg(f)
            }
            Some(RigidTy::Adt(d, _)) if d.kind() == AdtKind::Enum => Val::variant(0, vec![]),
            _ => Val::unit(),
        }
    }

    // ------------------------------------------------------------ scalars
    pub fn to_int(v: &Val) -> Option<Lin> {
        match v {
            Val::Int(l) => Some(l.clone()),
            _ => None,
        }
    }
    /// a boolean as a 0/1 integer; splits
    pub fn int_of(&mut self, st: State, v: &Val) -> Vec<(State, Option<Lin>)> {
        match v {
            Val::Int(l) => vec![(st, Some(l.clone()))],
            Val::Bool(Cond::T) => vec![(st, Some(Lin::k(1)))],
            Val::Bool(Cond::F) => vec![(st, Some(Lin::k(0)))],
            Val::Bool(Cond::Eq(l)) if l.t.len() == 1 && l.c == -1 && l.t[0].1 == 1 && bounds(l.t[0].0) == (Some(0), Some(1)) => {
                vec![(st, Some(Lin::s(l.t[0].0)))]
            }
            Val::Bool(c) => {
                let mut out = vec![];
                for s in self.assume(st.clone(), c) {
                    out.push((s, Some(Lin::k(1))));
                }
                for s in self.assume(st, &c.not()) {
                    out.push((s, Some(Lin::k(0))));
                }
                out
            }
            Val::Enum(d, _) => vec![(st, Some(d.clone()))],
            _ => vec![(st, None)],
        }
    }
    pub fn top_int(t: Ty, lab: u32) -> Val {
        match int_bounds(t) {
            Some((lo, hi)) => {
                let s = fresh("unk", Some(lo), Some(hi), lab);
                if matches!(rigid(t), Some(RigidTy::Bool)) {
                    Val::Bool(Cond::sym1(Lin::s(s)))
                } else {
                    Val::Int(Lin::s(s))
                }
            }
            None => Val::Top(lab),
        }
    }
    pub fn opaque_app(t: Ty, f: &str, args: Vec<Arg>, lab: u32) -> Val {
        match int_bounds(t) {
            Some((lo, hi)) => {
                let s = app(f, args, Some(lo), Some(hi), lab);
                if matches!(rigid(t), Some(RigidTy::Bool)) {
                    Val::Bool(Cond::sym1(Lin::s(s)))
                } else {
                    Val::Int(Lin::s(s))
                }
            }
            None => match rigid(t) {
                Some(RigidTy::Adt(d, _)) if is_fieldless_enum(t) => {
                    let n = d.num_variants() as i128;
                    let s = app(f, args, Some(0), Some(n - 1), lab);
                    Val::Enum(Lin::s(s), Rc::new((0..n as u32).map(|k| (k, vec![])).collect()))
                }
                Some(RigidTy::FnPtr(_)) => Val::Fn(FnVal::Sym(Lin::s(app(f, args, Some(0), None, lab)))),
                _ => Val::Top(UNK),
            },
        }
    }
    pub fn opaque_bool(f: &str, lab: u32) -> Val {
        Val::Bool(Cond::sym1(Lin::s(fresh(f, Some(0), Some(1), lab))))
    }
    pub fn in_range(&self, n: &Num, l: &Lin, t: Ty) -> bool {
        match int_bounds(t) {
            Some((lo, hi)) => n.entails_ge(&l.plus(-lo)) && n.entails_ge(&l.neg().plus(hi)),
            None => false,
        }
    }
    fn binop(&mut self, st: State, op: BinOp, a: &Val, b: &Val, t: Ty) -> R {
        use BinOp::*;
        match op {
            Eq | Ne | Lt | Le | Gt | Ge | Cmp => return self.compare(st, op, a, b),
            _ => {}
        }
        let mut out = vec![];
        for (s, x) in self.int_of(st, a) {
            for (mut s, y) in self.int_of(s, b) {
                let (Some(x), Some(y)) = (x.clone(), y) else {
                    out.push((s, Interp::top_int(t, UNK)));
                    continue;
                };
                if let Some(v) = self.arith(&mut s, op, &x, &y, t) {
                    // boolean operators
                    if matches!(rigid(t), Some(RigidTy::Bool)) {
                        out.push((s, Val::Bool(Cond::sym1(v))));
                    } else {
                        out.push((s, Val::Int(v)));
                    }
                } else {
                    out.push((s, Interp::top_int(t, UNK)));
                }
            }
        }
        out
    }
    /// mathematical result of the operation, before wrapping
    pub fn arith(&mut self, st: &mut State, op: BinOp, x: &Lin, y: &Lin, t: Ty) -> Option<Lin> {
        use BinOp::*;
        let b = int_bounds(t)?;
        Some(match op {
            Add | AddUnchecked => {
                let r = x.add(y);
                if r.is_const().is_some() || self.in_range(&st.num, &r, t) || matches!(op, AddUnchecked) {
                    r
                } else {
                    Lin::s(app("wrap+", vec![Arg::L(r)], Some(b.0), Some(b.1), UNK))
                }
            }
            Sub | SubUnchecked => {
                let r = x.sub(y);
                if matches!(op, SubUnchecked) || self.in_range(&st.num, &r, t) {
                    r
                } else {
                    Lin::s(app("wrap-", vec![Arg::L(r)], Some(b.0), Some(b.1), UNK))
                }
            }
            Mul | MulUnchecked => {
                let r = self.mul(st, x, y);
                if matches!(op, MulUnchecked) || self.in_range(&st.num, &r, t) {
                    r
                } else {
                    Lin::s(app("wrap*", vec![Arg::L(r)], Some(b.0), Some(b.1), UNK))
                }
            }
            Div => self.div(st, x, y).0,
            Rem => self.div(st, x, y).1,
            BitAnd | BitOr | BitXor => {
                if let (Some(p), Some(q)) = (x.is_const(), y.is_const()) {
                    return Some(Lin::k(match op {
                        BitAnd => p & q,
                        BitOr => p | q,
                        _ => p ^ q,
                    }));
                }
                if b == (0, 1) {
                    // booleans
                    return Some(match (op, x.is_const(), y.is_const()) {
                        (BitAnd, Some(0), _) | (BitAnd, _, Some(0)) => Lin::k(0),
                        (BitAnd, Some(1), _) => y.clone(),
                        (BitAnd, _, Some(1)) => x.clone(),
                        (BitOr, Some(1), _) | (BitOr, _, Some(1)) => Lin::k(1),
                        (BitOr, Some(0), _) => y.clone(),
                        (BitOr, _, Some(0)) => x.clone(),
                        (BitXor, Some(0), _) => y.clone(),
                        (BitXor, _, Some(0)) => x.clone(),
                        (BitXor, Some(1), _) => y.neg().plus(1),
                        (BitXor, _, Some(1)) => x.neg().plus(1),
                        _ => return None,
                    });
                }
                let f = match op {
                    BitAnd => "and",
                    BitOr => "or",
                    _ => "xor",
                };
                let (p, q) = if x <= y { (x, y) } else { (y, x) };
                let s = app(f, vec![Arg::L(p.clone()), Arg::L(q.clone())], Some(b.0), Some(b.1), 0);
                let l = Lin::s(s);
                if matches!(op, BitAnd) && b.0 == 0 {
                    st.num.add_ge(&x.sub(&l));
                    st.num.add_ge(&y.sub(&l));
                }
                l
            }
            Shl | ShlUnchecked | Shr | ShrUnchecked => {
                if let Some(k) = y.is_const() {
                    if matches!(op, Shr | ShrUnchecked) && k >= 0 && k < 63 {
                        return Some(self.div(st, x, &Lin::k(1 << k)).0);
                    }
                    if k >= 0 && k < 62 {
                        let r = x.scale(1 << k);
                        if self.in_range(&st.num, &r, t) {
                            return Some(r);
                        }
                    }
                }
                return None;
            }
            _ => return None,
        })
    }
    pub fn mul(&mut self, st: &mut State, x: &Lin, y: &Lin) -> Lin {
        let _ = st;
        mul(x, y)
    }
    pub fn div(&mut self, st: &mut State, x: &Lin, y: &Lin) -> (Lin, Lin) {
        if let (Some(a), Some(b)) = (x.is_const(), y.is_const()) {
            if b != 0 {
                return (Lin::k(a / b), Lin::k(a % b));
            }
        }
        if y.is_const() == Some(1) {
            return (x.clone(), Lin::k(0));
        }
        let q = Lin::s(app("div", vec![Arg::L(x.clone()), Arg::L(y.clone())], Some(0), None, 0));
        let nonneg = st.num.entails_ge(x) && st.num.entails_ge(y);
        if !nonneg {
            return (Lin::s(fresh("div", None, None, UNK)), Lin::s(fresh("rem", None, None, UNK)));
        }
        let qy = mul(&q, y);
        let r = if y.is_const().is_some() {
            x.sub(&qy)
        } else {
            let r = Lin::s(app("rem", vec![Arg::L(x.clone()), Arg::L(y.clone())], Some(0), None, 0));
            st.num.add_eq(&x.sub(&qy).sub(&r));
            r
        };
        st.num.add_ge(&r);
        st.num.add_ge(&y.sub(&r).plus(-1));
        st.num.add_ge(&x.sub(&q));
        (q, r)
    }
    pub fn compare(&mut self, st: State, op: BinOp, a: &Val, b: &Val) -> R {
        use BinOp::*;
        // bool == const without splitting
        if let (Val::Bool(c), Val::Bool(d)) = (a, b) {
            let r = match (op, c, d) {
                (Eq, Cond::T, x) | (Eq, x, Cond::T) => Some(x.clone()),
                (Eq, Cond::F, x) | (Eq, x, Cond::F) => Some(x.not()),
                (Ne, Cond::T, x) | (Ne, x, Cond::T) => Some(x.not()),
                (Ne, Cond::F, x) | (Ne, x, Cond::F) => Some(x.clone()),
                _ => None,
            };
            if let Some(r) = r {
                return vec![(st, Val::Bool(r))];
            }
        }
        if let (Val::Fn(x), Val::Fn(y)) = (a, b) {
            return vec![(st, Val::bool(x == y))];
        }
        if let (Val::Ptr(x), Val::Ptr(y)) = (a, b) {
            if x == y {
                return vec![(st, Val::bool(matches!(op, Eq | Le | Ge)))];
            }
        }
        let mut out = vec![];
        for (s, x) in self.int_of(st, a) {
            for (s, y) in self.int_of(s, b) {
                let (Some(x), Some(y)) = (x.clone(), y) else {
                    out.push((s, Val::Bool(Cond::Unk(UNK))));
                    continue;
                };
                let d = x.sub(&y);
                let c = match op {
                    Eq => Cond::Eq(d),
                    Ne => Cond::Ne(d),
                    Lt => Cond::Ge(d.neg().plus(-1)),
                    Le => Cond::Ge(d.neg()),
                    Gt => Cond::Ge(d.plus(-1)),
                    Ge => Cond::Ge(d),
                    _ => {
                        // three-way
                        for (c, k) in [(Cond::Ge(d.neg().plus(-1)), 0u32), (Cond::Eq(d.clone()), 1), (Cond::Ge(d.plus(-1)), 2)] {
                            for s2 in self.assume(s.clone(), &c.norm()) {
                                out.push((s2, Val::variant(k, vec![])));
                            }
                        }
                        continue;
                    }
                };
                out.push((s, Val::Bool(c.norm())));
            }
        }
        out
    }
    pub fn disc_of(&self, d: &Lin, t: Ty) -> Val {
        if let Some(RigidTy::Adt(def, _)) = rigid(t) {
            let vs = def.variants();
            let discs: Vec<i128> = vs
                .iter()
                .map(|v| {
                    let x = def.discriminant_for_variant(v.idx());
                    let (lo, _) = int_bounds(x.ty).unwrap_or((0, 0));
                    let n = size_of(x.ty);
                    let mut v = x.val as i128;
                    if lo < 0 && n < 16 {
                        let m = 1i128 << (8 * n);
                        v &= m - 1;
                        if v >= m / 2 {
                            v -= m;
                        }
                    }
                    v
                })
                .collect();
            if let Some(c) = d.is_const() {
                return Val::int(discs.get(c as usize).copied().unwrap_or(c));
            }
            if !discs.is_empty() && discs.iter().enumerate().all(|(i, x)| *x - i as i128 == discs[0]) {
                return Val::Int(d.plus(discs[0]));
            }
            return Val::Top(UNK);
        }
        Val::Int(d.clone())
    }

    // ------------------------------------------------------------ rvalues
    pub fn rvalue(&mut self, st: State, r: &Rvalue, bi: &BodyInfo) -> R {
        let locals = bi.body.locals();
        match r {
            Rvalue::Use(o, ..) => self.operand(st, o, bi),
            Rvalue::CopyForDeref(p) => self.read_place(st, p, bi),
            Rvalue::Ref(_, _, p) | Rvalue::AddressOf(_, p) | Rvalue::Reborrow(_, _, p) => {
                self.place(st, p, bi).into_iter().map(|(s, p)| (s, Val::Ptr(p))).collect()
            }
            Rvalue::Len(p) => {
                let mut out = vec![];
                for (s, q) in self.place(st, p, bi) {
                    let n = self.seq_len(&s, &q, &p.projection, p.local, bi);
                    out.push((s, Val::Int(n)));
                }
                out
            }
            Rvalue::BinaryOp(op, a, b) => {
                let t = a.ty(locals).unwrap();
                let mut out = vec![];
                for (s, x) in self.operand(st, a, bi) {
                    for (s, y) in self.operand(s, b, bi) {
                        out.extend(self.binop(s, *op, &x, &y, t));
                    }
                }
                out
            }
            Rvalue::CheckedBinaryOp(op, a, b) => {
                let t = a.ty(locals).unwrap();
                let (lo, hi) = int_bounds(t).unwrap_or((i128::MIN / 4, i128::MAX / 4));
                let mut out = vec![];
                for (s, x) in self.operand(st, a, bi) {
                    for (s, y) in self.operand(s, b, bi) {
                        for (s, x) in self.int_of(s, &x) {
                            for (mut s, y) in self.int_of(s, &y) {
                                let (Some(x), Some(y)) = (x.clone(), y) else {
                                    out.push((s, Val::agg(vec![Interp::top_int(t, UNK), Val::Bool(Cond::Unk(UNK))])));
                                    continue;
                                };
                                let m = match op {
                                    BinOp::Add | BinOp::AddUnchecked => x.add(&y),
                                    BinOp::Sub | BinOp::SubUnchecked => x.sub(&y),
                                    BinOp::Mul | BinOp::MulUnchecked => self.mul(&mut s, &x, &y),
                                    _ => {
                                        out.push((s, Val::agg(vec![Interp::top_int(t, UNK), Val::Bool(Cond::Unk(UNK))])));
                                        continue;
                                    }
                                };
                                let ok = Cond::And(vec![Cond::Ge(m.plus(-lo)), Cond::Ge(m.neg().plus(hi))]).norm();
                                out.push((s, Val::agg(vec![Val::Int(m), Val::Bool(ok.not())])));
                            }
                        }
                    }
                }
                out
            }
            Rvalue::UnaryOp(op, a) => {
                let mut out = vec![];
                let t = a.ty(locals).unwrap();
                for (s, v) in self.operand(st, a, bi) {
                    let r = match (op, &v) {
                        (UnOp::Not, Val::Bool(c)) => Val::Bool(c.not()),
                        (UnOp::Not, Val::Int(l)) => match int_bounds(t) {
                            Some((0, hi)) => Val::Int(l.neg().plus(hi)),
                            Some(_) => Val::Int(l.neg().plus(-1)),
                            None => Val::Top(UNK),
                        },
                        (UnOp::Neg, Val::Int(l)) => Val::Int(l.neg()),
                        (UnOp::PtrMetadata, v) => match Interp::as_ptr(v) {
                            Some(Ptr { view: Some((_, n)), .. }) => Val::Int(n),
                            _ => Val::unit(),
                        },
                        _ => Val::Top(UNK),
                    };
                    out.push((s, r));
                }
                out
            }
            Rvalue::Discriminant(p) => {
                let t = p.ty(locals).unwrap();
                let mut out = vec![];
                for (s, v) in self.read_place(st, p, bi) {
                    let r = match &v {
                        Val::Enum(d, _) => self.disc_of(d, t),
                        Val::Top(l) => Val::Int(Lin::s(fresh("disc", Some(0), None, *l | UNK))),
                        // of a value that is gone: a drop which does nothing either way
                        Val::Undef => Val::Int(Lin::s(fresh("gone", Some(0), None, 0))),
                        _ => Val::Int(Lin::s(fresh("disc", Some(0), None, UNK))),
                    };
                    out.push((s, r));
                }
                out
            }
            Rvalue::Aggregate(k, ops) => {
                let mut cur: Vec<(State, Vec<Val>)> = vec![(st, vec![])];
                for o in ops {
                    let mut nx = vec![];
                    for (s, vs) in cur {
                        for (s, v) in self.operand(s, o, bi) {
                            let mut w = vs.clone();
                            w.push(v);
                            nx.push((s, w));
                        }
                    }
                    cur = nx;
                }
                cur.into_iter()
                    .map(|(s, vs)| {
                        let v = match k {
                            AggregateKind::Adt(d, vi, ..) if d.kind() == AdtKind::Enum => {
                                let n = format!("{vi:?}").chars().filter(|c| c.is_ascii_digit()).collect::<String>().parse().unwrap_or(0);
                                Val::variant(n, vs)
                            }
                            AggregateKind::Closure(d, a) => Val::Clos(*d, a.clone(), Rc::new(vs)),
                            AggregateKind::RawPtr(..) => {
                                match (Interp::as_ptr(&vs[0]), vs.get(1)) {
                                    (Some(mut p), Some(Val::Int(n))) => {
                                        // a pointer to the first element becomes a view
                                        let off = match p.path.last() {
                                            Some(Step::Idx(i)) => {
                                                let i = i.clone();
                                                p.path.pop();
                                                i
                                            }
                                            _ => p.view.take().map_or(Lin::k(0), |v| v.0),
                                        };
                                        p.view = Some((off, n.clone()));
                                        Val::Ptr(p)
                                    }
                                    (Some(p), _) => Val::Ptr(p),
                                    _ => Val::Top(UNK),
                                }
                            }
                            _ => Val::agg(vs),
                        };
                        (s, v)
                    })
                    .collect()
            }
            Rvalue::Repeat(o, n) => {
                let n = n.eval_target_usize().unwrap_or(0) as usize;
                self.operand(st, o, bi).into_iter().map(|(s, v)| (s, if n <= 64 { Val::agg(vec![v; n]) } else { Val::Top(UNK) })).collect()
            }
            Rvalue::Cast(kind, o, t) => {
                let from = o.ty(locals).unwrap();
                let mut out = vec![];
                for (s, v) in self.operand(st, o, bi) {
                    out.extend(self.cast(s, kind, v, from, *t));
                }
                out
            }
            _ => vec![(st, Val::Top(UNK))],
        }
    }
    pub fn cast(&mut self, st: State, kind: &CastKind, v: Val, from: Ty, to: Ty) -> R {
        match kind {
            CastKind::IntToInt => {
                let mut out = vec![];
                let v = match (&v, rigid(from)) {
                    (Val::Enum(d, _), _) => self.disc_of(d, from),
                    _ => v,
                };
                for (s, x) in self.int_of(st, &v) {
                    let r = match x {
                        Some(l) => {
                            if self.in_range(&s.num, &l, to) {
                                Val::Int(l)
                            } else {
                                let (lo, hi) = int_bounds(to).unwrap_or((0, 0));
                                if let Some(c) = l.is_const() {
                                    let m = hi - lo + 1;
                                    Val::int((c - lo).rem_euclid(m) + lo)
                                } else {
                                    Val::Int(Lin::s(app(&format!("cast{}", hi), vec![Arg::L(l)], Some(lo), Some(hi), 0)))
                                }
                            }
                        }
                        None => Interp::top_int(to, UNK),
                    };
                    out.push((s, r));
                }
                out
            }
            CastKind::PointerCoercion(PointerCoercion::Unsize) => {
                // &[T; N] -> &[T]
                if let (Some(a), Some(b)) = (pointee(from), pointee(to)) {
                    if let (Some(RigidTy::Array(_, n)), Some(RigidTy::Slice(_))) = (rigid(a), rigid(b)) {
                        if let Val::Ptr(mut p) = v {
                            let n = Lin::k(n.eval_target_usize().unwrap_or(0) as i128);
                            if p.view.is_none() {
                                p.view = Some((Lin::k(0), n));
                            }
                            return vec![(st, Val::Ptr(p))];
                        }
                        return vec![(st, Val::Top(UNK))];
                    }
                }
                vec![(st, v)]
            }
            CastKind::PointerCoercion(PointerCoercion::ReifyFnPointer(_)) => {
                if let Some(RigidTy::FnDef(d, a)) = rigid(from) {
                    if let Ok(i) = Instance::resolve_for_fn_ptr(d, &a) {
                        return vec![(st, Val::Fn(FnVal::Inst(i)))];
                    }
                }
                vec![(st, v)]
            }
            CastKind::PointerCoercion(PointerCoercion::ClosureFnPointer(_)) => {
                if let Some(RigidTy::Closure(d, a)) = rigid(from) {
                    return vec![(st, Val::Clos(d, a, Rc::new(vec![])))];
                }
                vec![(st, v)]
            }
            CastKind::Transmute | CastKind::Subtype | CastKind::BoxDerefTransmute => {
                if int_bounds(from).is_some() && int_bounds(to).is_some() {
                    return self.cast(st, &CastKind::IntToInt, v, from, to);
                }
                if let (Val::Int(n), true) = (&v, crate::leaf::is_option_of(to, "NonZero")) {
                    let c = Cond::Eq(n.clone()).norm();
                    let mut out = vec![];
                    out.extend(self.assume(st.clone(), &c).into_iter().map(|s| (s, Val::none())));
                    out.extend(self.assume(st, &c.not().norm()).into_iter().map(|s| (s, Val::some(v.clone()))));
                    return out;
                }
                vec![(st, v)]
            }
            _ => vec![(st, v)],
        }
    }

    // ------------------------------------------------------------ blocks
    pub fn assign(&mut self, st: State, p: &Place, v: Val, bi: &BodyInfo) -> Vec<State> {
        if p.projection.is_empty() {
            let mut st = st;
            st.set_local(p.local, v);
            return vec![st];
        }
        let mut out = vec![];
        for (s, q) in self.place(st, p, bi) {
            out.extend(self.write(s, &q, v.clone()));
        }
        out
    }
    fn statement(&mut self, st: State, s: &StatementKind, bi: &BodyInfo) -> Vec<State> {
        match s {
            StatementKind::Assign(p, r) => {
                let mut out = vec![];
                for (s, v) in self.rvalue(st, r, bi) {
                    out.extend(self.assign(s, p, v, bi));
                }
                out
            }
            StatementKind::StorageDead(l) | StatementKind::StorageLive(l) => {
                let mut st = st;
                if !matches!(st.local(*l), Val::Undef) {
                    st.set_local(*l, Val::Undef);
                }
                vec![st]
            }
            StatementKind::SetDiscriminant { place, variant_index } => {
                let n: u32 = format!("{variant_index:?}").chars().filter(|c| c.is_ascii_digit()).collect::<String>().parse().unwrap_or(0);
                let mut out = vec![];
                for (s, q) in self.place(st, place, bi) {
                    for (s, v) in self.read(s, &q) {
                        let nv = match v {
                            Val::Enum(_, m) => Val::Enum(Lin::k(n as i128), m),
                            _ => Val::variant(n, vec![]),
                        };
                        out.extend(self.write(s, &q, nv));
                    }
                }
                out
            }
            _ => vec![st],
        }
    }
    pub fn loc_of(span: &Span) -> String {
        let f = span.get_filename().to_string();
        let l = span.get_lines();
        let f = f.rsplit("/src/").next().map(|x| format!("src/{x}")).unwrap_or(f);
        format!("{f}:{}", l.start_line)
    }
    /// executes one block; successors with states
    fn block(&mut self, st: State, b: usize, bi: &Rc<BodyInfo>) -> Vec<(usize, State)> {
        self.steps += 1;
        if self.steps > self.max_steps || (self.steps & 255 == 0 && std::time::Instant::now() > self.deadline) {
            self.overflow = true;
            return vec![];
        }
        let blk = &bi.body.blocks[b];
        let mut cur = vec![st];
        for s in &blk.statements {
            let mut nx = vec![];
            for x in cur {
                nx.extend(self.statement(x, &s.kind, bi));
            }
            cur = nx;
        }
        let mut out = vec![];
        let ts = &blk.terminator.source_info.span;
        for st in cur {
            match &blk.terminator.kind {
                TerminatorKind::Goto { target } | TerminatorKind::Drop { target, .. } => out.push((*target, st)),
                TerminatorKind::Return => out.push((usize::MAX, st)),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let t = discr.ty(bi.body.locals()).unwrap();
                    for (s, v) in self.operand(st, discr, bi) {
                        self.switch(s, v, t, targets, &mut out);
                    }
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    *self.span.last_mut().unwrap() = Interp::loc_of(ts);
                    let (rule, what) = match msg {
                        AssertMessage::BoundsCheck { .. } => ("index", "index in bounds"),
                        AssertMessage::Overflow(BinOp::Sub, ..) => ("underflow", "subtraction does not go below zero"),
                        AssertMessage::Overflow(..) => ("overflow", "arithmetic does not overflow"),
                        AssertMessage::OverflowNeg(_) => ("overflow", "negation does not overflow"),
                        AssertMessage::DivisionByZero(_) | AssertMessage::RemainderByZero(_) => ("div", "divisor is not zero"),
                        _ => ("assert", "assertion holds"),
                    };
                    for (s, v) in self.operand(st, cond, bi) {
                        let c = match v {
                            Val::Bool(c) => {
                                if *expected {
                                    c
                                } else {
                                    c.not()
                                }
                            }
                            _ => Cond::Unk(UNK),
                        };
                        if c == Cond::T {
                            self.event(rule, what, Verdict::Proved, String::new());
                            out.push((*target, s));
                            continue;
                        }
                        for s in self.oblige(s, &c, rule, what) {
                            out.push((*target, s));
                        }
                    }
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    *self.span.last_mut().unwrap() = Interp::loc_of(ts);
                    for (s, f) in self.operand(st, func, bi) {
                        let mut cur: Vec<(State, Vec<Val>)> = vec![(s, vec![])];
                        for a in args {
                            let mut nx = vec![];
                            for (s, vs) in cur {
                                for (s, v) in self.operand(s, a, bi) {
                                    let mut w = vs.clone();
                                    w.push(v);
                                    nx.push((s, w));
                                }
                            }
                            cur = nx;
                        }
                        let rt = destination.ty(bi.body.locals()).unwrap();
                        for (s, vs) in cur {
                            let res = match &f {
                                Val::Fn(FnVal::Inst(i)) => self.call(i, vs, s),
                                v => self.call_val(v.clone(), vs, s, rt),
                            };
                            if let Some(t) = target {
                                for (s, v) in res {
                                    for s in self.assign(s, destination, v, bi) {
                                        out.push((*t, s));
                                    }
                                }
                            }
                        }
                    }
                }
                TerminatorKind::Unreachable | TerminatorKind::Resume | TerminatorKind::Abort => {}
                TerminatorKind::InlineAsm { .. } => {}
            }
        }
        out
    }
    fn switch(&mut self, st: State, v: Val, t: Ty, targets: &SwitchTargets, out: &mut Vec<(usize, State)>) {
        let (lo, _) = int_bounds(t).unwrap_or((0, 0));
        let n = size_of(t);
        let norm = |v: u128| -> i128 {
            let mut x = v as i128;
            if lo < 0 && n < 16 {
                let m = 1i128 << (8 * n);
                if x >= m / 2 {
                    x -= m;
                }
            }
            x
        };
        match v {
            Val::Bool(c) => {
                for (k, b) in targets.branches() {
                    let cc = if k == 0 { c.not() } else { c.clone() };
                    for s in self.assume(st.clone(), &cc) {
                        out.push((b, s));
                    }
                }
                let has0 = targets.branches().any(|x| x.0 == 0);
                let has1 = targets.branches().any(|x| x.0 == 1);
                let other = match (has0, has1) {
                    (true, true) => Cond::F,
                    (true, false) => c,
                    (false, true) => c.not(),
                    _ => Cond::T,
                };
                for s in self.assume(st, &other) {
                    out.push((targets.otherwise(), s));
                }
            }
            Val::Int(l) => {
                let mut rest = vec![st];
                for (k, b) in targets.branches() {
                    let d = l.plus(-norm(k));
                    let mut nr = vec![];
                    for s in rest {
                        for s2 in self.assume(s.clone(), &Cond::Eq(d.clone()).norm()) {
                            out.push((b, s2));
                        }
                        nr.extend(self.assume(s, &Cond::Ne(d.clone()).norm()));
                    }
                    rest = nr;
                }
                for s in rest {
                    out.push((targets.otherwise(), s));
                }
            }
            _ => {
                let mut st = st;
                st.poison("branch on an unmodelled value");
                for b in targets.all_targets() {
                    out.push((b, st.clone()));
                }
            }
        }
    }

    // ------------------------------------------------------------ control
    pub fn prune(&mut self, st: &mut State, b: usize, bi: &BodyInfo) {
        let f = st.frames.last().unwrap();
        let live = &bi.live[b];
        let kill: Vec<usize> =
            (0..f.locals.len()).filter(|l| !live[*l] && !bi.borrowed[*l] && *l != 0 && !matches!(f.locals[*l], Val::Undef)).collect();
        if !kill.is_empty() {
            let f = Rc::make_mut(st.frames.last_mut().unwrap());
            for l in kill {
                f.locals[l] = Val::Undef;
            }
        }
    }
    /// exact union of two constraint sets, when there is one
    fn union_num(a: &Num, b: &Num) -> Option<Num> {
        if a.ge == b.ge && a.ne == b.ne && a.bot == b.bot {
            return Some(a.clone());
        }
        let ao: Vec<Cond> = a.ge.difference(&b.ge).map(|l| Cond::Ge(l.clone())).chain(a.ne.difference(&b.ne).map(|l| Cond::Ne(l.clone()))).collect();
        let bo: Vec<Cond> = b.ge.difference(&a.ge).map(|l| Cond::Ge(l.clone())).chain(b.ne.difference(&a.ne).map(|l| Cond::Ne(l.clone()))).collect();
        let holds = |n: &Num, c: &Cond| match c {
            Cond::Ge(l) => n.entails_ge(l),
            Cond::Ne(l) => n.entails_ne(l),
            _ => false,
        };
        if ao.iter().all(|c| holds(b, c)) {
            return Some(a.clone());
        }
        if bo.iter().all(|c| holds(a, c)) {
            return Some(b.clone());
        }
        if ao.len() > 6 || bo.len() > 6 {
            return None;
        }
        // keep what both entail, check that nothing is lost
        let mut common = Num { ge: a.ge.intersection(&b.ge).cloned().collect(), ne: a.ne.intersection(&b.ne).cloned().collect(), bot: false };
        for c in &ao {
            if holds(b, c) {
                match c {
                    Cond::Ge(l) => {
                        common.ge.insert(l.clone());
                    }
                    Cond::Ne(l) => {
                        common.ne.insert(l.clone());
                    }
                    _ => {}
                }
            }
        }
        for c in &bo {
            if holds(a, c) {
                match c {
                    Cond::Ge(l) => {
                        common.ge.insert(l.clone());
                    }
                    Cond::Ne(l) => {
                        common.ne.insert(l.clone());
                    }
                    _ => {}
                }
            }
        }
        for c in &ao {
            for n in Interp::assume_num(&common, &c.not()) {
                if n.bot {
                    continue;
                }
                if !bo.iter().all(|d| holds(&n, d)) {
                    return None;
                }
            }
        }
        Some(common)
    }
    pub fn merge(&mut self, v: Vec<State>) -> Vec<State> {
        let mut out: Vec<State> = vec![];
        'next: for s in v {
            for o in out.iter_mut() {
                if o.same_mem(&s) {
                    if let Some(n) = Interp::union_num(&o.num, &s.num) {
                        o.num = n;
                        if o.poison.is_none() {
                            o.poison = s.poison.clone();
                        }
                        o.next = o.next.max(s.next);
                        continue 'next;
                    }
                }
            }
            out.push(s);
        }
        if out.len() > self.cap {
            // lossy merge
            let mut o2: Vec<State> = vec![];
            'n2: for s in out {
                for o in o2.iter_mut() {
                    let (mut t1, mut t2) = (o.tags.clone(), s.tags.clone());
                    t1.remove("approx");
                    t2.remove("approx");
                    if o.frames == s.frames && o.heap == s.heap && o.ghost == s.ghost && t1 == t2 {
                        let ge = o.num.ge.iter().filter(|l| s.num.entails_ge(l)).cloned().collect();
                        let ne = o.num.ne.iter().filter(|l| s.num.entails_ne(l)).cloned().collect();
                        o.num = Num { ge, ne, bot: false };
                        o.tags.insert("approx".into());
                        o.next = o.next.max(s.next);
                        if o.poison.is_none() {
                            o.poison = s.poison.clone();
                        }
                        continue 'n2;
                    }
                }
                o2.push(s);
            }
            out = o2;
            if out.len() > self.cap * 4 {
                self.overflow = true;
                out.truncate(self.cap * 4);
            }
        }
        out
    }
    /// Runs from `head`; if `region` is a loop, edges to `head` come back in `backs`.
    pub fn region(&mut self, bi: &Rc<BodyInfo>, region: Option<&BTreeSet<usize>>, head: usize, init: Vec<State>) -> Out {
        let mut out = Out::default();
        let mut pend: BTreeMap<usize, Vec<State>> = BTreeMap::new();
        let mut first = true;
        pend.insert(bi.pos[head], init);
        while let Some((p, states)) = pend.pop_first() {
            if self.overflow {
                break;
            }
            let b = bi.rpo[p];
            let is_head = b == head && first;
            first = false;
            let mut states = states;
            for s in states.iter_mut() {
                self.prune(s, b, bi);
            }
            let states = self.merge(states);
            let mut route = |out: &mut Out, pend: &mut BTreeMap<usize, Vec<State>>, t: usize, s: State| {
                if t == usize::MAX {
                    out.rets.push(s);
                } else if region.is_some() && t == head {
                    out.backs.push(s);
                } else if region.map_or(false, |r| !r.contains(&t)) {
                    out.exits.entry(t).or_default().push(s);
                } else {
                    pend.entry(bi.pos[t]).or_default().push(s);
                }
            };
            if bi.loops.contains_key(&b) && !(is_head && region.is_some()) {
                let o = self.run_loop(bi, b, states);
                for (t, v) in o.exits {
                    for s in v {
                        route(&mut out, &mut pend, t, s);
                    }
                }
                out.rets.extend(o.rets);
            } else {
                for s in states {
                    for (t, s2) in self.block(s, b, bi) {
                        route(&mut out, &mut pend, t, s2);
                    }
                }
            }
        }
        out
    }

    pub fn exec(&mut self, i: &Instance, bi: &Rc<BodyInfo>, args: Vec<Val>, mut st: State) -> R {
        if self.stack.len() > 60 {
            st.poison("recursion too deep");
            return vec![(st, Val::Top(UNK))];
        }
        let n = bi.body.locals().len();
        let mut locals = vec![Val::Undef; n];
        let na = bi.body.arg_locals().len();
        // rust-call bodies take their arguments as a tuple
        let mut args = args;
        if let Some(sp) = bi.body.spread_arg() {
            let k = sp - 1;
            if args.len() > k + 1 || (args.len() == k + 1 && !matches!(args[k], Val::Agg(_))) {
                let rest: Vec<Val> = args.drain(k..).collect();
                args.push(Val::agg(rest));
            }
        }
        for (k, a) in args.into_iter().enumerate() {
            if k < na {
                locals[k + 1] = a;
            }
        }
        st.frames.push(Rc::new(Frame { locals }));
        let depth = st.frames.len();
        self.stack.push(bi.name.clone());
        self.span.push(String::new());
        *self.fns.entry(bi.name.clone()).or_default() += 1;
        let o = self.region(bi, None, 0, vec![st]);
        self.stack.pop();
        self.span.pop();
        let _ = i;
        let mut res: R = vec![];
        for mut s in o.rets {
            debug_assert_eq!(s.frames.len(), depth);
            let f = s.frames.pop().unwrap();
            res.push((s, f.locals[0].clone()));
        }
        self.merge_rets(res)
    }
    pub fn merge_rets(&mut self, v: R) -> R {
        if v.len() < 2 {
            return v;
        }
        // stash the value in a pseudo frame so that merging sees it
        let ss: Vec<State> = v
            .into_iter()
            .map(|(mut s, v)| {
                s.frames.push(Rc::new(Frame { locals: vec![v] }));
                s
            })
            .collect();
        self.merge(ss)
            .into_iter()
            .map(|mut s| {
                let f = s.frames.pop().unwrap();
                (s, f.locals[0].clone())
            })
            .collect()
    }

    // ------------------------------------------------------------ calls
    pub fn ret_ty(i: &Instance) -> Option<Ty> {
        let t = i.ty();
        t.kind().fn_sig().map(|s| s.skip_binder().output())
    }
    /// arguments of an opaque pure function, flattened; None if it is not scalar
    pub fn flatten(&mut self, st: &State, v: &Val, out: &mut Vec<Arg>) -> bool {
        match v {
            Val::Int(l) => out.push(Arg::L(l.clone())),
            Val::Bool(Cond::T) => out.push(Arg::L(Lin::k(1))),
            Val::Bool(Cond::F) => out.push(Arg::L(Lin::k(0))),
            Val::Bool(Cond::Eq(l)) if l.t.len() == 1 && l.c == -1 && l.t[0].1 == 1 && bounds(l.t[0].0) == (Some(0), Some(1)) => out.push(Arg::L(Lin::s(l.t[0].0))),
            Val::Enum(d, m) if m.values().all(|x| x.is_empty()) => out.push(Arg::L(d.clone())),
            Val::Agg(a) => {
                for x in a.iter() {
                    if !self.flatten(st, x, out) {
                        return false;
                    }
                }
            }
            Val::Fn(FnVal::Sym(l)) => out.push(Arg::L(l.clone())),
            Val::Fn(FnVal::Inst(i)) => out.push(Arg::O(obj(&def_path(i), vec![]))),
            Val::Ptr(p) if p.view.is_none() => {
                let r = self.read(st.clone(), p);
                if r.len() != 1 {
                    return false;
                }
                return self.flatten(st, &r[0].1.clone(), out);
            }
            _ => return false,
        }
        true
    }
    fn is_opaque(&self, i: &Instance, name: &str) -> bool {
        if self.exact || !is_local(i) || self.inline.contains(name.rsplit("::").next().unwrap_or("")) {
            return false;
        }
        let Some(sig) = i.ty().kind().fn_sig() else { return false };
        let sig = sig.skip_binder();
        let out = sig.output();
        let scalar_out = int_bounds(out).is_some() || is_fieldless_enum(out) || matches!(rigid(out), Some(RigidTy::FnPtr(_)));
        if !scalar_out {
            return false;
        }
        if matches!(rigid(out), Some(RigidTy::FnPtr(_))) && sig.inputs().iter().all(|t| int_bounds(*t).is_some() || is_fieldless_enum(*t)) {
            return true;
        }
        let tys: Vec<Ty> = sig.inputs().iter().copied().chain([out]).collect();
        if tys.iter().any(|t| self.opaque_ty.contains(&adt_last(strip_refs(*t)))) {
            return tys.iter().all(|t| int_bounds(*t).is_some() || is_fieldless_enum(*t) || matches!(rigid(strip_refs(*t)), Some(RigidTy::Adt(d, _)) if d.kind() == AdtKind::Struct));
        }
        // big tables
        let l = name.rsplit("::").next().unwrap_or("");
        matches!(l, "normalize" | "is_normalized")
    }
    pub fn call(&mut self, i: &Instance, args: Vec<Val>, st: State) -> R {
        if self.overflow {
            return vec![];
        }
        let name = def_path(i);
        for h in self.hooks.clone() {
            if let Some(r) = h(self, i, &name, &args, &st) {
                return r;
            }
        }
        if self.trace {
            eprintln!("{}call {} {:?}", " ".repeat(self.stack.len()), name, args.iter().map(|a| format!("{a:?}").chars().take(120).collect::<String>()).collect::<Vec<_>>());
        }
        match crate::models::model(self, i, &name, &args, &st) {
            Some(r) => {
                if self.trace {
                    eprintln!("{} -> model {} results", " ".repeat(self.stack.len()), r.len());
                }
                return r;
            }
            None => {}
        }
        if self.is_opaque(i, &name) {
            let mut flat = vec![];
            if args.iter().all(|a| self.flatten(&st, a, &mut flat)) {
                let rt = Interp::ret_ty(i).unwrap();
                let lab = if int_bounds(rt).map_or(false, |b| b.1 > 0x10FFFF) { UNK } else { 0 };
                let v = Interp::opaque_app(rt, &name, flat, lab);
                return vec![(st, v)];
            }
        }
        match self.body_of(i) {
            Some(b) if b.body.blocks.len() < 400 => {
                if !is_local(i) {
                    *self.unknown.entry(format!("std-body {}", name)).or_default() += 1;
                }
                self.exec(i, &b, args, st)
            }
            _ => self.unknown_call(i, &name, args, st),
        }
    }
    pub fn unknown_call(&mut self, i: &Instance, name: &str, args: Vec<Val>, mut st: State) -> R {
        *self.unknown.entry(format!("unmodelled {name}")).or_default() += 1;
        let _ = args;
        st.poison(&format!("unmodelled call to {name}"));
        let v = match Interp::ret_ty(i) {
            Some(t) if int_bounds(t).is_some() => Interp::top_int(t, UNK),
            _ => Val::Top(UNK),
        };
        vec![(st, v)]
    }
    /// calls a function value; args are the individual arguments
    pub fn call_val(&mut self, f: Val, args: Vec<Val>, mut st: State, rt: Ty) -> R {
        match f {
            Val::Fn(FnVal::Inst(i)) => {
                // indirect predicate calls stay symbolic when everything is scalar
                self.call(&i, args, st)
            }
            Val::Fn(FnVal::Sym(l)) => {
                let mut flat = vec![Arg::L(l)];
                if args.iter().all(|a| self.flatten(&st, a, &mut flat)) {
                    let v = Interp::opaque_app(rt, "fnptr", flat, 0);
                    return vec![(st, v)];
                }
                st.poison("call of an unknown function pointer");
                vec![(st, Val::Top(UNK))]
            }
            Val::Clos(d, a, caps) => self.call_closure(d, a, Val::Clos(d, GenericArgs(vec![]), caps.clone()), None, args, st, caps),
            Val::Ptr(p) => {
                // pointer to a callable
                let mut out = vec![];
                for (s, v) in self.read(st, &p) {
                    match v {
                        Val::Clos(d, a, caps) => out.extend(self.call_closure(d, a, Val::Undef, Some(p.clone()), args.clone(), s, caps)),
                        v @ (Val::Fn(_) | Val::Ptr(_)) => out.extend(self.call_val(v, args.clone(), s, rt)),
                        _ => {
                            let mut s = s;
                            s.poison("call of an unmodelled callable");
                            out.push((s, Val::Top(UNK)));
                        }
                    }
                }
                out
            }
            _ => {
                st.poison("call of an unmodelled value");
                vec![(st, Val::Top(UNK))]
            }
        }
    }
    fn call_closure(&mut self, d: ClosureDef, a: GenericArgs, _v: Val, env: Option<Ptr>, args: Vec<Val>, mut st: State, caps: Rc<Vec<Val>>) -> R {
        let inst = Instance::resolve_closure(d, &a, ClosureKind::FnOnce).or_else(|_| Instance::resolve_closure(d, &a, ClosureKind::FnMut));
        let inst = match inst {
            Ok(i) => i,
            Err(_) => {
                st.poison("unresolved closure");
                return vec![(st, Val::Top(UNK))];
            }
        };
        // the closure body itself (not the FnOnce shim)
        let mut inst2 = inst;
        for k in [ClosureKind::Fn, ClosureKind::FnMut, ClosureKind::FnOnce] {
            if let Ok(i) = Instance::resolve_closure(d, &a, k) {
                if i.kind == InstanceKind::Item {
                    inst2 = i;
                    break;
                }
            }
        }
        let Some(bi) = self.body_of(&inst2) else {
            st.poison("closure without a body");
            return vec![(st, Val::Top(UNK))];
        };
        let by_ref = bi.body.arg_locals().first().map_or(false, |l| pointee(l.ty).is_some());
        let clos = Val::Clos(d, a.clone(), caps);
        let (envv, tmp) = if by_ref {
            match env {
                Some(p) => (Val::Ptr(p), false),
                None => {
                    let f = st.frames.len();
                    st.frames.push(Rc::new(Frame { locals: vec![clos] }));
                    (Val::Ptr(Ptr::to(Base::Local(f, 0))), true)
                }
            }
        } else {
            (clos, false)
        };
        let mut all = vec![envv];
        all.extend(args);
        let r = self.exec(&inst2, &bi, all, st);
        if tmp {
            r.into_iter()
                .map(|(mut s, v)| {
                    s.frames.pop();
                    (s, v)
                })
                .collect()
        } else {
            r
        }
    }
}
