//! Abstract values, conditions, memory and states.
use crate::num::*;
use crate::term::*;
use rustc_public::mir::mono::Instance;
use rustc_public::ty::{ClosureDef, GenericArgs, Ty};
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub enum Cond {
    T,
    F,
    Ge(Lin),
    Eq(Lin),
    Ne(Lin),
    And(Vec<Cond>),
    Or(Vec<Cond>),
    /// nothing known; labels
    Unk(u32),
}
impl Cond {
    pub fn not(&self) -> Cond {
        match self {
            Cond::T => Cond::F,
            Cond::F => Cond::T,
            Cond::Ge(l) => Cond::Ge(l.neg().plus(-1)),
            Cond::Eq(l) => Cond::Ne(l.clone()),
            Cond::Ne(l) => Cond::Eq(l.clone()),
            Cond::And(v) => Cond::Or(v.iter().map(|c| c.not()).collect()),
            Cond::Or(v) => Cond::And(v.iter().map(|c| c.not()).collect()),
            Cond::Unk(l) => Cond::Unk(*l),
        }
    }
    pub fn norm(self) -> Cond {
        match &self {
            Cond::Ge(l) => match l.is_const() {
                Some(c) => Cond::b(c >= 0),
                None => self,
            },
            Cond::Eq(l) => match l.is_const() {
                Some(c) => Cond::b(c == 0),
                None => self,
            },
            Cond::Ne(l) => match l.is_const() {
                Some(c) => Cond::b(c != 0),
                None => self,
            },
            Cond::And(v) => {
                let mut o = vec![];
                for c in v {
                    match c.clone().norm() {
                        Cond::T => {}
                        Cond::F => return Cond::F,
                        x => o.push(x),
                    }
                }
                match o.len() {
                    0 => Cond::T,
                    1 => o.pop().unwrap(),
                    _ => Cond::And(o),
                }
            }
            Cond::Or(v) => {
                let mut o = vec![];
                for c in v {
                    match c.clone().norm() {
                        Cond::F => {}
                        Cond::T => return Cond::T,
                        x => o.push(x),
                    }
                }
                match o.len() {
                    0 => Cond::F,
                    1 => o.pop().unwrap(),
                    _ => Cond::Or(o),
                }
            }
            _ => self,
        }
    }
    pub fn b(x: bool) -> Cond {
        if x {
            Cond::T
        } else {
            Cond::F
        }
    }
    pub fn sym1(l: Lin) -> Cond {
        Cond::Eq(l.plus(-1)).norm()
    }
    pub fn subst(&self, m: &mut Subst) -> Cond {
        match self {
            Cond::Ge(l) => Cond::Ge(m.lin(l)).norm(),
            Cond::Eq(l) => Cond::Eq(m.lin(l)).norm(),
            Cond::Ne(l) => Cond::Ne(m.lin(l)).norm(),
            Cond::And(v) => Cond::And(v.iter().map(|c| c.subst(m)).collect()).norm(),
            Cond::Or(v) => Cond::Or(v.iter().map(|c| c.subst(m)).collect()).norm(),
            c => c.clone(),
        }
    }
    pub fn lins(&self, out: &mut Vec<Lin>) {
        match self {
            Cond::Ge(l) | Cond::Eq(l) | Cond::Ne(l) => out.push(l.clone()),
            Cond::And(v) | Cond::Or(v) => v.iter().for_each(|c| c.lins(out)),
            _ => {}
        }
    }
    pub fn labels(&self) -> u32 {
        if let Cond::Unk(l) = self {
            return *l | UNK;
        }
        let mut v = vec![];
        self.lins(&mut v);
        let mut l = v.iter().fold(0, |a, l| a | l.labels());
        if let Cond::And(v) | Cond::Or(v) = self {
            for c in v {
                l |= c.labels();
            }
        }
        l
    }
}

#[derive(Clone, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum Base {
    Local(usize, usize),
    Heap(u32),
    /// immutable symbolic object (elements are terms)
    Sym(O),
    /// bytes of a str object
    Bytes(O),
}
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Step {
    Field(usize),
    Variant(usize),
    Idx(Lin),
}
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Ptr {
    pub base: Base,
    pub path: Vec<Step>,
    /// for pointers to slices and strs: offset into the sequence and length
    pub view: Option<(Lin, Lin)>,
}
impl Ptr {
    pub fn to(base: Base) -> Ptr {
        Ptr { base, path: vec![], view: None }
    }
    pub fn push(&self, s: Step) -> Ptr {
        let mut p = self.clone();
        p.path.push(s);
        p
    }
    pub fn elem(&self, i: &Lin) -> Ptr {
        let mut p = self.clone();
        let off = p.view.take().map_or(Lin::k(0), |v| v.0);
        p.path.push(Step::Idx(off.add(i)));
        p
    }
}

#[derive(Clone)]
pub enum FnVal {
    Inst(Instance),
    Sym(Lin),
    Closure(ClosureDef, GenericArgs),
}
impl PartialEq for FnVal {
    fn eq(&self, o: &FnVal) -> bool {
        match (self, o) {
            (FnVal::Inst(a), FnVal::Inst(b)) => a == b,
            (FnVal::Sym(a), FnVal::Sym(b)) => a == b,
            (FnVal::Closure(a, x), FnVal::Closure(b, y)) => a == b && x == y,
            _ => false,
        }
    }
}
impl Eq for FnVal {}
impl std::fmt::Debug for FnVal {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            FnVal::Inst(i) => write!(f, "fn {}", i.name()),
            FnVal::Sym(l) => write!(f, "fnptr {l:?}"),
            FnVal::Closure(d, _) => write!(f, "closure {d:?}"),
        }
    }
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum It {
    /// slice::Iter / IterMut: elements lo..hi of the sequence behind `p`
    Slice { p: Ptr, lo: Lin, hi: Lin },
    /// str::Chars over char positions lo..hi of a str object; CharIndices if idx
    Chars { o: O, lo: Lin, hi: Lin, idx: Option<Lin> },
    /// memchr iterators: haystack, position, needles
    Memchr { p: Ptr, pos: Lin, needles: Vec<Lin> },
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Val {
    Undef,
    Top(u32),
    Int(Lin),
    Bool(Cond),
    Agg(Rc<Vec<Val>>),
    Enum(Lin, Rc<BTreeMap<u32, Vec<Val>>>),
    Ptr(Ptr),
    Fn(FnVal),
    /// closure with captures
    Clos(ClosureDef, GenericArgs, Rc<Vec<Val>>),
    Vec(u32, Lin),
    It(It),
}
impl Val {
    pub fn unit() -> Val {
        Val::Agg(Rc::new(vec![]))
    }
    pub fn agg(v: Vec<Val>) -> Val {
        Val::Agg(Rc::new(v))
    }
    pub fn none() -> Val {
        let mut m = BTreeMap::new();
        m.insert(0, vec![]);
        Val::Enum(Lin::k(0), Rc::new(m))
    }
    pub fn some(v: Val) -> Val {
        let mut m = BTreeMap::new();
        m.insert(1, vec![v]);
        Val::Enum(Lin::k(1), Rc::new(m))
    }
    pub fn variant(k: u32, v: Vec<Val>) -> Val {
        let mut m = BTreeMap::new();
        m.insert(k, v);
        Val::Enum(Lin::k(k as i128), Rc::new(m))
    }
    pub fn int(c: i128) -> Val {
        Val::Int(Lin::k(c))
    }
    pub fn bool(b: bool) -> Val {
        Val::Bool(Cond::b(b))
    }
    pub fn for_lins(&self, f: &mut dyn FnMut(&Lin)) {
        match self {
            Val::Int(l) => f(l),
            Val::Bool(c) => {
                let mut v = vec![];
                c.lins(&mut v);
                v.iter().for_each(|l| f(l));
            }
            Val::Agg(v) | Val::Clos(_, _, v) => v.iter().for_each(|x| x.for_lins(f)),
            Val::Enum(d, m) => {
                f(d);
                m.values().for_each(|v| v.iter().for_each(|x| x.for_lins(f)));
            }
            Val::Ptr(p) => p.for_lins(f),
            Val::Fn(FnVal::Sym(l)) => f(l),
            Val::Vec(_, l) => f(l),
            Val::It(It::Slice { p, lo, hi }) => {
                p.for_lins(f);
                f(lo);
                f(hi)
            }
            Val::It(It::Chars { lo, hi, idx, .. }) => {
                f(lo);
                f(hi);
                if let Some(i) = idx {
                    f(i)
                }
            }
            Val::It(It::Memchr { p, pos, needles }) => {
                p.for_lins(f);
                f(pos);
                needles.iter().for_each(|l| f(l));
            }
            _ => {}
        }
    }
    pub fn labels(&self) -> u32 {
        let mut r = 0;
        self.for_lins(&mut |l| r |= l.labels());
        r | self.top_labels()
    }
    pub fn top_labels(&self) -> u32 {
        match self {
            Val::Top(l) => *l | UNK,
            Val::Bool(c) => c.labels(),
            Val::Agg(v) | Val::Clos(_, _, v) => v.iter().fold(0, |a, x| a | x.top_labels()),
            Val::Enum(_, m) => m.values().flatten().fold(0, |a, x| a | x.top_labels()),
            _ => 0,
        }
    }
    pub fn subst(&self, m: &mut Subst) -> Val {
        match self {
            Val::Int(l) => Val::Int(m.lin(l)),
            Val::Bool(c) => Val::Bool(c.subst(m)),
            Val::Agg(v) => Val::agg(v.iter().map(|x| x.subst(m)).collect()),
            Val::Clos(d, a, v) => Val::Clos(*d, a.clone(), Rc::new(v.iter().map(|x| x.subst(m)).collect())),
            Val::Enum(d, mm) => Val::Enum(
                m.lin(d),
                Rc::new(mm.iter().map(|(k, v)| (*k, v.iter().map(|x| x.subst(m)).collect())).collect()),
            ),
            Val::Ptr(p) => Val::Ptr(p.subst(m)),
            Val::Fn(FnVal::Sym(l)) => Val::Fn(FnVal::Sym(m.lin(l))),
            Val::Vec(o, l) => Val::Vec(*o, m.lin(l)),
            Val::It(i) => Val::It(match i {
                It::Slice { p, lo, hi } => It::Slice { p: p.subst(m), lo: m.lin(lo), hi: m.lin(hi) },
                It::Chars { o, lo, hi, idx } => {
                    It::Chars { o: m.obj(*o), lo: m.lin(lo), hi: m.lin(hi), idx: idx.as_ref().map(|l| m.lin(l)) }
                }
                It::Memchr { p, pos, needles } => {
                    It::Memchr { p: p.subst(m), pos: m.lin(pos), needles: needles.iter().map(|l| m.lin(l)).collect() }
                }
            }),
            v => v.clone(),
        }
    }
}
impl Base {
    pub fn subst(&self, m: &mut Subst) -> Base {
        match self {
            Base::Sym(o) => Base::Sym(m.obj(*o)),
            Base::Bytes(o) => Base::Bytes(m.obj(*o)),
            b => b.clone(),
        }
    }
}
impl Ptr {
    pub fn for_lins(&self, f: &mut dyn FnMut(&Lin)) {
        for s in &self.path {
            if let Step::Idx(l) = s {
                f(l)
            }
        }
        if let Base::Sym(o) | Base::Bytes(o) = &self.base {
            for a in obj_args(*o) {
                if let Arg::L(l) = a {
                    f(&l)
                }
            }
        }
        if let Some((a, b)) = &self.view {
            f(a);
            f(b);
        }
    }
    pub fn subst(&self, m: &mut Subst) -> Ptr {
        Ptr {
            base: self.base.subst(m),
            path: self
                .path
                .iter()
                .map(|s| match s {
                    Step::Idx(l) => Step::Idx(m.lin(l)),
                    s => s.clone(),
                })
                .collect(),
            view: self.view.as_ref().map(|(a, b)| (m.lin(a), m.lin(b))),
        }
    }
}

/// One modification of a sequence, newest last.
#[derive(Clone, PartialEq, Eq, Debug)]
pub enum W {
    Set(Lin, Val),
    /// elements lo..hi become val (a function of IDX)
    Fill(Lin, Lin, Val),
    /// element inserted before position
    Ins(Lin, Val),
    /// elements lo..hi removed
    Del(Lin, Lin),
    /// forget everything; labels of the new content
    Havoc(String, u32),
}
#[derive(Clone, PartialEq, Eq, Debug)]
pub enum SeqBase {
    Sym(O),
    Const(Rc<Vec<Val>>),
    Undef,
}
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Seq {
    pub ty: Ty,
    pub base: SeqBase,
    pub chain: Vec<W>,
}
#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Obj {
    Cell(Val),
    Seq(Seq),
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Frame {
    pub locals: Vec<Val>,
}

#[derive(Clone, Debug)]
pub struct State {
    pub frames: Vec<Rc<Frame>>,
    pub heap: BTreeMap<u32, Rc<Obj>>,
    pub next: u32,
    pub num: Num,
    pub ghost: BTreeMap<String, Val>,
    /// set when something happened that the analysis does not model
    pub poison: Option<String>,
    /// path facts recorded by monitors
    pub tags: BTreeSet<String>,
}
impl State {
    pub fn new() -> State {
        State {
            frames: vec![],
            heap: BTreeMap::new(),
            next: 1,
            num: Num::default(),
            ghost: BTreeMap::new(),
            poison: None,
            tags: BTreeSet::new(),
        }
    }
    pub fn same_mem(&self, o: &State) -> bool {
        self.frames == o.frames
            && self.heap == o.heap
            && self.ghost == o.ghost
            && self.tags == o.tags
            && self.poison.is_some() == o.poison.is_some()
    }
    pub fn alloc(&mut self, o: Obj) -> u32 {
        let id = self.next;
        self.next += 1;
        self.heap.insert(id, Rc::new(o));
        id
    }
    pub fn local(&self, l: usize) -> &Val {
        &self.frames.last().unwrap().locals[l]
    }
    pub fn set_local(&mut self, l: usize, v: Val) {
        Rc::make_mut(self.frames.last_mut().unwrap()).locals[l] = v;
    }
    pub fn poison(&mut self, why: &str) {
        if self.poison.is_none() {
            self.poison = Some(why.to_string());
        }
    }
    pub fn subst(&mut self, m: &mut Subst) {
        for f in self.frames.iter_mut() {
            let nf = Frame { locals: f.locals.iter().map(|v| v.subst(m)).collect() };
            *f = Rc::new(nf);
        }
        for o in self.heap.values_mut() {
            *o = Rc::new(o.subst(m));
        }
        for v in self.ghost.values_mut() {
            *v = v.subst(m);
        }
        self.num.subst(m);
    }
    /// drop heap objects that nothing reaches
    pub fn gc(&mut self, roots: &[u32]) {
        let mut seen: BTreeSet<u32> = BTreeSet::new();
        let mut work: Vec<u32> = roots.to_vec();
        fn val(v: &Val, w: &mut Vec<u32>) {
            match v {
                Val::Agg(v) | Val::Clos(_, _, v) => v.iter().for_each(|x| val(x, w)),
                Val::Enum(_, m) => m.values().flatten().for_each(|x| val(x, w)),
                Val::Ptr(p) => {
                    if let Base::Heap(h) = p.base {
                        w.push(h)
                    }
                }
                Val::Vec(h, _) => w.push(*h),
                Val::It(It::Slice { p, .. }) | Val::It(It::Memchr { p, .. }) => {
                    if let Base::Heap(h) = p.base {
                        w.push(h)
                    }
                }
                _ => {}
            }
        }
        for f in &self.frames {
            f.locals.iter().for_each(|v| val(v, &mut work));
        }
        self.ghost.values().for_each(|v| val(v, &mut work));
        while let Some(h) = work.pop() {
            if !seen.insert(h) {
                continue;
            }
            match self.heap.get(&h).map(|x| &**x) {
                Some(Obj::Cell(v)) => val(v, &mut work),
                Some(Obj::Seq(s)) => {
                    if let SeqBase::Const(c) = &s.base {
                        c.iter().for_each(|v| val(v, &mut work));
                    }
                    for w in &s.chain {
                        match w {
                            W::Set(_, v) | W::Fill(_, _, v) | W::Ins(_, v) => val(v, &mut work),
                            _ => {}
                        }
                    }
                }
                None => {}
            }
        }
        self.heap.retain(|k, _| seen.contains(k));
    }
}
impl Obj {
    pub fn subst(&self, m: &mut Subst) -> Obj {
        match self {
            Obj::Cell(v) => Obj::Cell(v.subst(m)),
            Obj::Seq(s) => Obj::Seq(Seq {
                ty: s.ty,
                base: match &s.base {
                    SeqBase::Sym(o) => SeqBase::Sym(m.obj(*o)),
                    b => b.clone(),
                },
                chain: s.chain.iter().map(|w| w.subst(m)).collect(),
            }),
        }
    }
}
impl W {
    pub fn subst(&self, m: &mut Subst) -> W {
        match self {
            W::Set(i, v) => W::Set(m.lin(i), v.subst(m)),
            W::Fill(a, b, v) => W::Fill(m.lin(a), m.lin(b), v.subst(m)),
            W::Ins(i, v) => W::Ins(m.lin(i), v.subst(m)),
            W::Del(a, b) => W::Del(m.lin(a), m.lin(b)),
            W::Havoc(s, l) => W::Havoc(s.clone(), *l),
        }
    }
}
