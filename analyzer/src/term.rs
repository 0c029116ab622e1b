//! Hash-consed terms: symbols (variables and uninterpreted applications),
//! objects (memory roots that are themselves terms) and linear expressions.
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;
use std::fmt;

pub type S = u32;
pub type O = u32;

pub const UNK: u32 = 1; // derives from something the analysis does not model
pub const STALE: u32 = 2; // scratch contents left by an earlier call
pub const STALELEN: u32 = 4; // size of scratch storage left by an earlier call
pub const WIDE: u32 = 8; // forced widening

#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Arg {
    L(Lin),
    O(O),
}

#[derive(Clone, PartialEq, Eq, Hash)]
pub enum SymKind {
    Idx,
    Var(u32, String),
    App(String, Vec<Arg>),
}

#[derive(Clone, PartialEq, Eq, Hash)]
pub struct ObjKind {
    pub name: String,
    pub args: Vec<Arg>,
}

#[derive(Clone)]
pub struct SymInfo {
    pub kind: SymKind,
    pub lo: Option<i128>,
    pub hi: Option<i128>,
    pub labels: u32,
}

#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Default)]
pub struct Lin {
    pub c: i128,
    pub t: Vec<(S, i128)>,
}

#[derive(Default)]
pub struct Arena {
    pub syms: Vec<SymInfo>,
    map: HashMap<SymKind, S>,
    pub objs: Vec<ObjKind>,
    omap: HashMap<ObjKind, O>,
    /// labels attached to everything read out of an object with this root name prefix
    pub obj_labels: BTreeMap<String, u32>,
    /// str objects known to be ASCII
    pub ascii: BTreeSet<String>,
    pub nonascii: BTreeSet<String>,
    nvars: u32,
    pub layouts: HashMap<String, Rc<Vec<u8>>>,
    /// what each character of a text can be: first and last of an interval
    pub texts: HashMap<String, Rc<Vec<(u32, u32)>>>,
}

thread_local! {
    pub static ARENA: RefCell<Arena> = RefCell::new(Arena::default());
}

pub fn reset_arena() {
    ARENA.with(|a| *a.borrow_mut() = Arena::default());
    idx();
}

pub fn obj_label(name: &str, l: u32) {
    ARENA.with(|a| {
        a.borrow_mut().obj_labels.insert(name.to_string(), l);
    })
}
pub fn set_ascii(name: &str, b: bool) {
    ARENA.with(|a| {
        let mut a = a.borrow_mut();
        if b {
            a.ascii.insert(name.to_string());
        } else {
            a.nonascii.insert(name.to_string());
        }
    })
}
/// widths of the characters of a text, if known
pub fn set_layout(name: &str, widths: &[u8]) {
    ARENA.with(|a| {
        a.borrow_mut().layouts.insert(name.to_string(), Rc::new(widths.to_vec()));
    })
}
/// what the characters of a text can be: a letter of the template stands for any
/// letter of its case, a character of several bytes for any of that many bytes in
/// a script without case, everything else for itself
pub fn set_text(name: &str, template: &[char]) {
    let w: Vec<u8> = template.iter().map(|c| c.len_utf8() as u8).collect();
    set_layout(name, &w);
    if w.iter().all(|x| *x == 1) {
        set_ascii(name, true);
    }
    let class = |c: &char| match c {
        'a'..='z' => ('a' as u32, 'z' as u32),
        'A'..='Z' => ('A' as u32, 'Z' as u32),
        c if c.len_utf8() == 2 => (0x5d0, 0x7b0),
        c if c.len_utf8() == 3 => (0x4e00, 0x9fff),
        c if c.len_utf8() == 4 => (0x1f300, 0x1f6ff),
        c => (*c as u32, *c as u32),
    };
    ARENA.with(|a| {
        a.borrow_mut().texts.insert(name.to_string(), Rc::new(template.iter().map(class).collect()));
    })
}
pub fn is_given(o: O) -> bool {
    given(o, &Lin::k(0)).is_some()
}
/// what character k of a text can be
fn given(o: O, k: &Lin) -> Option<(i128, i128)> {
    let k = usize::try_from(k.is_const()?).ok()?;
    ARENA.with(|a| {
        let a = a.borrow();
        if a.texts.is_empty() {
            return None;
        }
        a.texts.get(&a.objs[o as usize].name)?.get(k).map(|c| (c.0 as i128, c.1 as i128))
    })
}
pub fn layout(o: O) -> Option<Rc<Vec<u8>>> {
    ARENA.with(|a| {
        let a = a.borrow();
        if a.layouts.is_empty() {
            return None;
        }
        a.layouts.get(&a.objs[o as usize].name).cloned()
    })
}
/// the character that holds byte b: (index, its first byte, width)
pub fn char_of_byte(w: &[u8], b: i128) -> Option<(usize, i128, u8)> {
    let mut at = 0;
    for (k, x) in w.iter().enumerate() {
        if b >= at && b < at + *x as i128 {
            return Some((k, at, *x));
        }
        at += *x as i128;
    }
    None
}
pub fn ascii_of(o: O) -> Option<bool> {
    ARENA.with(|a| {
        let a = a.borrow();
        let n = &a.objs[o as usize].name;
        if a.ascii.contains(n) {
            Some(true)
        } else if a.nonascii.contains(n) {
            Some(false)
        } else {
            None
        }
    })
}

pub fn idx() -> S {
    ARENA.with(|a| {
        let mut a = a.borrow_mut();
        if let Some(s) = a.map.get(&SymKind::Idx) {
            return *s;
        }
        let s = a.syms.len() as S;
        a.syms.push(SymInfo { kind: SymKind::Idx, lo: Some(0), hi: None, labels: 0 });
        a.map.insert(SymKind::Idx, s);
        s
    })
}

pub fn fresh(name: &str, lo: Option<i128>, hi: Option<i128>, labels: u32) -> S {
    ARENA.with(|a| {
        let mut a = a.borrow_mut();
        a.nvars += 1;
        let kind = SymKind::Var(a.nvars, name.to_string());
        let s = a.syms.len() as S;
        a.syms.push(SymInfo { kind: kind.clone(), lo, hi, labels });
        a.map.insert(kind, s);
        s
    })
}
pub fn fresh_fn(name: &str) -> String {
    ARENA.with(|a| {
        let mut a = a.borrow_mut();
        a.nvars += 1;
        format!("{}#{}", name, a.nvars)
    })
}

pub fn arg_labels(args: &[Arg]) -> u32 {
    args.iter().fold(0, |l, a| {
        l | match a {
            Arg::L(x) => x.labels(),
            Arg::O(o) => obj_args(*o).iter().fold(0, |l, a| match a {
                Arg::L(x) => l | x.labels(),
                _ => l,
            }),
        }
    })
}

/// Uninterpreted application; `lo`/`hi`/`labels` are only used the first time.
pub fn app(f: &str, args: Vec<Arg>, lo: Option<i128>, hi: Option<i128>, labels: u32) -> S {
    let extra = arg_labels(&args);
    ARENA.with(|a| {
        let mut a = a.borrow_mut();
        let kind = SymKind::App(f.to_string(), args);
        if let Some(s) = a.map.get(&kind) {
            return *s;
        }
        let mut l = labels | extra;
        for (p, pl) in &a.obj_labels {
            if f.starts_with(p.as_str()) {
                l |= *pl;
            }
        }
        let s = a.syms.len() as S;
        a.syms.push(SymInfo { kind: kind.clone(), lo, hi, labels: l });
        a.map.insert(kind, s);
        s
    })
}
pub fn sym(s: S) -> SymInfo {
    ARENA.with(|a| a.borrow().syms[s as usize].clone())
}
pub fn sym_kind(s: S) -> SymKind {
    ARENA.with(|a| a.borrow().syms[s as usize].kind.clone())
}
pub fn bounds(s: S) -> (Option<i128>, Option<i128>) {
    ARENA.with(|a| {
        let a = a.borrow();
        let i = &a.syms[s as usize];
        (i.lo, i.hi)
    })
}
pub fn labels(s: S) -> u32 {
    ARENA.with(|a| a.borrow().syms[s as usize].labels)
}
pub fn is_var(s: S) -> bool {
    ARENA.with(|a| matches!(a.borrow().syms[s as usize].kind, SymKind::Var(..)))
}
pub fn is_app(s: S) -> bool {
    ARENA.with(|a| matches!(a.borrow().syms[s as usize].kind, SymKind::App(..)))
}

pub fn obj(name: &str, args: Vec<Arg>) -> O {
    ARENA.with(|a| {
        let mut a = a.borrow_mut();
        let k = ObjKind { name: name.to_string(), args };
        if let Some(o) = a.omap.get(&k) {
            return *o;
        }
        let o = a.objs.len() as O;
        a.objs.push(k.clone());
        a.omap.insert(k, o);
        o
    })
}
pub fn obj_kind(o: O) -> ObjKind {
    ARENA.with(|a| a.borrow().objs[o as usize].clone())
}
pub fn obj_name(o: O) -> String {
    ARENA.with(|a| a.borrow().objs[o as usize].name.clone())
}
pub fn obj_args(o: O) -> Vec<Arg> {
    ARENA.with(|a| a.borrow().objs[o as usize].args.clone())
}

impl Lin {
    pub fn k(c: i128) -> Lin {
        Lin { c, t: vec![] }
    }
    pub fn s(s: S) -> Lin {
        Lin { c: 0, t: vec![(s, 1)] }
    }
    pub fn is_const(&self) -> Option<i128> {
        if self.t.is_empty() {
            Some(self.c)
        } else {
            None
        }
    }
    pub fn add(&self, o: &Lin) -> Lin {
        self.axpy(1, o)
    }
    pub fn sub(&self, o: &Lin) -> Lin {
        self.axpy(-1, o)
    }
    pub fn plus(&self, c: i128) -> Lin {
        Lin { c: self.c + c, t: self.t.clone() }
    }
    pub fn neg(&self) -> Lin {
        self.scale(-1)
    }
    pub fn scale(&self, k: i128) -> Lin {
        if k == 0 {
            return Lin::k(0);
        }
        Lin { c: self.c * k, t: self.t.iter().map(|(s, x)| (*s, x * k)).collect() }
    }
    /// self + k*o
    pub fn axpy(&self, k: i128, o: &Lin) -> Lin {
        let mut t = Vec::with_capacity(self.t.len() + o.t.len());
        let (mut i, mut j) = (0, 0);
        while i < self.t.len() || j < o.t.len() {
            if j >= o.t.len() || (i < self.t.len() && self.t[i].0 < o.t[j].0) {
                t.push(self.t[i]);
                i += 1;
            } else if i >= self.t.len() || o.t[j].0 < self.t[i].0 {
                t.push((o.t[j].0, k * o.t[j].1));
                j += 1;
            } else {
                let x = self.t[i].1 + k * o.t[j].1;
                if x != 0 {
                    t.push((self.t[i].0, x));
                }
                i += 1;
                j += 1;
            }
        }
        if k == 0 {
            t.retain(|x| x.1 != 0);
        }
        Lin { c: self.c + k * o.c, t }
    }
    pub fn coef(&self, s: S) -> i128 {
        self.t.iter().find(|x| x.0 == s).map_or(0, |x| x.1)
    }
    pub fn single(&self) -> Option<S> {
        if self.c == 0 && self.t.len() == 1 && self.t[0].1 == 1 {
            Some(self.t[0].0)
        } else {
            None
        }
    }
    pub fn labels(&self) -> u32 {
        self.t.iter().fold(0, |l, (s, _)| l | labels(*s))
    }
    pub fn has_deep(&self, v: S) -> bool {
        self.t.iter().any(|(s, _)| sym_has(*s, v))
    }
}

pub fn sym_has(s: S, v: S) -> bool {
    if s == v {
        return true;
    }
    match sym_kind(s) {
        SymKind::App(_, args) => args.iter().any(|a| arg_has(a, v)),
        _ => false,
    }
}
pub fn arg_has(a: &Arg, v: S) -> bool {
    match a {
        Arg::L(l) => l.has_deep(v),
        Arg::O(o) => obj_args(*o).iter().any(|a| arg_has(a, v)),
    }
}

/// Substitution of symbols by linear expressions, deep inside applications.
pub struct Subst {
    pub m: BTreeMap<S, Lin>,
    /// if set, top-level occurrences (outside application arguments) are left alone
    pub args_only: bool,
    memo: HashMap<S, Lin>,
    omemo: HashMap<O, O>,
}
impl Subst {
    pub fn new(m: BTreeMap<S, Lin>) -> Subst {
        Subst { m, args_only: false, memo: HashMap::new(), omemo: HashMap::new() }
    }
    pub fn one(s: S, l: Lin) -> Subst {
        let mut m = BTreeMap::new();
        m.insert(s, l);
        Subst::new(m)
    }
    pub fn lin(&mut self, l: &Lin) -> Lin {
        let mut out = Lin::k(l.c);
        for (s, k) in &l.t {
            let r = self.sym(*s);
            out = out.axpy(*k, &r);
        }
        out
    }
    pub fn sym(&mut self, s: S) -> Lin {
        if let Some(l) = self.m.get(&s) {
            return l.clone();
        }
        if let Some(l) = self.memo.get(&s) {
            return l.clone();
        }
        let r = match sym_kind(s) {
            SymKind::App(f, args) => {
                let na: Vec<Arg> = args.iter().map(|a| self.arg(a)).collect();
                if na == args {
                    Lin::s(s)
                } else {
                    let i = sym(s);
                    mk_app(&f, na, i.lo, i.hi, i.labels & !(arg_labels(&args)))
                }
            }
            _ => Lin::s(s),
        };
        self.memo.insert(s, r.clone());
        r
    }
    pub fn arg(&mut self, a: &Arg) -> Arg {
        match a {
            Arg::L(l) => Arg::L(self.lin(l)),
            Arg::O(o) => Arg::O(self.obj(*o)),
        }
    }
    pub fn obj(&mut self, o: O) -> O {
        if let Some(r) = self.omemo.get(&o) {
            return *r;
        }
        let k = obj_kind(o);
        let na: Vec<Arg> = k.args.iter().map(|a| self.arg(a)).collect();
        let r = if na == k.args { o } else { obj(&k.name, na) };
        self.omemo.insert(o, r);
        r
    }
}

/// Application with normalisation of the interpreted functions.
pub fn mk_app(f: &str, args: Vec<Arg>, lo: Option<i128>, hi: Option<i128>, lab: u32) -> Lin {
    match f {
        "bsum" => {
            if let (Arg::O(o), Arg::L(k)) = (&args[0], &args[1]) {
                return bsum(*o, k);
            }
        }
        "cidx" => {
            if let (Arg::O(o), Arg::L(k)) = (&args[0], &args[1]) {
                return cidx(*o, k);
            }
        }
        "len8" => {
            if let Arg::L(k) = &args[0] {
                return len8(k);
            }
        }
        "mul" => {
            if let (Arg::L(a), Arg::L(b)) = (&args[0], &args[1]) {
                return mul(a, b);
            }
        }
        _ => {}
    }
    Lin::s(app(f, args, lo, hi, lab))
}

/// bytes taken by the first k chars of str object o
pub fn bsum(o: O, k: &Lin) -> Lin {
    if ascii_of(o) == Some(true) {
        return k.clone();
    }
    if k.is_const() == Some(0) {
        return Lin::k(0);
    }
    if let (Some(k), Some(w)) = (k.is_const(), layout(o)) {
        if k > 0 && k as usize <= w.len() {
            return Lin::k(w[..k as usize].iter().map(|x| *x as i128).sum());
        }
    }
    if let Some(s) = k.single() {
        if let SymKind::App(f, a) = sym_kind(s) {
            if f == "cidx" && a[0] == Arg::O(o) {
                if let Arg::L(b) = &a[1] {
                    return b.clone();
                }
            }
            if f == "nchars" && a[0] == Arg::O(o) {
                return str_len(o);
            }
        }
    }
    Lin::s(app("bsum", vec![Arg::O(o), Arg::L(k.clone())], Some(0), None, 0))
}
/// index of the char of o which starts at byte offset b (b on a boundary)
pub fn cidx(o: O, b: &Lin) -> Lin {
    if ascii_of(o) == Some(true) {
        return b.clone();
    }
    if b.is_const() == Some(0) {
        return Lin::k(0);
    }
    if *b == str_len(o) {
        return nchars(o);
    }
    if let (Some(b), Some(w)) = (b.is_const(), layout(o)) {
        if let Some((k, at, _)) = char_of_byte(&w, b) {
            if at == b {
                return Lin::k(k as i128);
            }
        }
    }
    if let Some(s) = b.single() {
        if let SymKind::App(f, a) = sym_kind(s) {
            if f == "bsum" && a[0] == Arg::O(o) {
                if let Arg::L(k) = &a[1] {
                    return k.clone();
                }
            }
        }
    }
    Lin::s(app("cidx", vec![Arg::O(o), Arg::L(b.clone())], Some(0), None, 0))
}
pub fn str_len(o: O) -> Lin {
    if let Some(w) = layout(o) {
        return Lin::k(w.iter().map(|x| *x as i128).sum());
    }
    Lin::s(app(&format!("{}.len", obj_name(o)), obj_args(o), Some(0), Some(i64::MAX as i128), 0))
}
pub fn nchars(o: O) -> Lin {
    if ascii_of(o) == Some(true) {
        return str_len(o);
    }
    if let Some(w) = layout(o) {
        return Lin::k(w.len() as i128);
    }
    Lin::s(app("nchars", vec![Arg::O(o)], Some(0), Some(i64::MAX as i128), 0))
}
/// k-th char of a str object
pub fn ch(o: O, k: &Lin) -> Lin {
    if let Some((lo, hi)) = given(o, k) {
        if lo == hi {
            return Lin::k(lo);
        }
        let mut args = obj_args(o);
        args.push(Arg::L(k.clone()));
        return Lin::s(app(&format!("{}[]", obj_name(o)), args, Some(lo), Some(hi), 0));
    }
    if ascii_of(o) == Some(true) {
        let mut args = obj_args(o);
        args.push(Arg::L(k.clone()));
        return Lin::s(app(&format!("{}[]", obj_name(o)), args, Some(0), Some(127), 0));
    }
    let (mut lo, mut hi) = (0, 0x10FFFF);
    if let (Some(k), Some(w)) = (k.is_const(), layout(o)) {
        match w.get(k as usize) {
            Some(1) => hi = 127,
            Some(_) => lo = 128,
            _ => {}
        }
    }
    Lin::s(app("ch", vec![Arg::O(o), Arg::L(k.clone())], Some(lo), Some(hi), 0))
}
pub fn len8(c: &Lin) -> Lin {
    let width = |k: i128| match k {
        ..0x80 => 1,
        0x80..0x800 => 2,
        0x800..0x10000 => 3,
        _ => 4,
    };
    if let Some(k) = c.is_const() {
        return Lin::k(width(k));
    }
    if let Some(s) = c.single() {
        let i = sym(s);
        if let SymKind::App(f, a) = &i.kind {
            if f == "ch" {
                if let (Arg::O(o), Arg::L(k)) = (&a[0], &a[1]) {
                    return bsum(*o, &k.plus(1)).sub(&bsum(*o, k));
                }
            }
        }
        if let (Some(lo), Some(hi)) = (i.lo, i.hi) {
            if width(lo) == width(hi) {
                return Lin::k(width(lo));
            }
        }
    }
    Lin::s(app("len8", vec![Arg::L(c.clone())], Some(1), Some(4), 0))
}
pub fn mul(a: &Lin, b: &Lin) -> Lin {
    if let Some(k) = a.is_const() {
        return b.scale(k);
    }
    if let Some(k) = b.is_const() {
        return a.scale(k);
    }
    // expand into products of single symbols
    let mut out = Lin::k(a.c * b.c);
    for (s, k) in &a.t {
        out = out.axpy(*k * b.c, &Lin::s(*s));
    }
    for (s, k) in &b.t {
        out = out.axpy(*k * a.c, &Lin::s(*s));
    }
    for (s, k) in &a.t {
        for (r, m) in &b.t {
            let (x, y) = if s <= r { (*s, *r) } else { (*r, *s) };
            let (bx, by) = (bounds(x), bounds(y));
            let lo = if bx.0.map_or(false, |v| v >= 0) && by.0.map_or(false, |v| v >= 0) { Some(0) } else { None };
            let p = app("mul", vec![Arg::L(Lin::s(x)), Arg::L(Lin::s(y))], lo, None, 0);
            out = out.axpy(k * m, &Lin::s(p));
        }
    }
    out
}

impl fmt::Debug for Lin {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        let mut first = true;
        for (s, k) in &self.t {
            if *k < 0 {
                write!(f, "-")?;
            } else if !first {
                write!(f, "+")?;
            }
            if k.abs() != 1 {
                write!(f, "{}*", k.abs())?;
            }
            write!(f, "{}", show(*s))?;
            first = false;
        }
        if self.c != 0 || first {
            if self.c >= 0 && !first {
                write!(f, "+")?;
            }
            write!(f, "{}", self.c)?;
        }
        Ok(())
    }
}
pub fn show(s: S) -> String {
    let i = sym(s);
    let lab = if i.labels & UNK != 0 { "?" } else { "" };
    match i.kind {
        SymKind::Idx => "IDX".into(),
        SymKind::Var(n, name) => format!("{name}${n}{lab}"),
        SymKind::App(f, a) => {
            if a.is_empty() {
                format!("{f}{lab}")
            } else {
                format!("{f}{lab}({})", a.iter().map(show_arg).collect::<Vec<_>>().join(","))
            }
        }
    }
}
pub fn show_arg(a: &Arg) -> String {
    match a {
        Arg::L(l) => format!("{l:?}"),
        Arg::O(o) => show_obj(*o),
    }
}
pub fn show_obj(o: O) -> String {
    let k = obj_kind(o);
    if k.args.is_empty() {
        k.name
    } else {
        format!("{}({})", k.name, k.args.iter().map(show_arg).collect::<Vec<_>>().join(","))
    }
}
impl fmt::Debug for Arg {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{}", show_arg(self))
    }
}
