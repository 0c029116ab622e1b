//! Conjunctions of linear inequalities over symbols (a polyhedron kept as a
//! constraint list), with an exact rational emptiness test.
use crate::term::*;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Rat {
    n: i128,
    d: i128,
}
fn gcd(a: i128, b: i128) -> i128 {
    let (mut a, mut b) = (a.unsigned_abs(), b.unsigned_abs());
    if a <= u64::MAX as u128 && b <= u64::MAX as u128 {
        let (mut x, mut y) = (a as u64, b as u64);
        while y != 0 {
            let t = x % y;
            x = y;
            y = t;
        }
        return x as i128;
    }
    while b != 0 {
        let t = a % b;
        a = b;
        b = t;
    }
    a as i128
}
impl Rat {
    const Z: Rat = Rat { n: 0, d: 1 };
    const ONE: Rat = Rat { n: 1, d: 1 };
    fn i(n: i128) -> Rat {
        Rat { n, d: 1 }
    }
    fn mk(n: i128, d: i128) -> Rat {
        let g = gcd(n, d);
        let (n, d) = if g > 1 { (n / g, d / g) } else { (n, d) };
        if d < 0 {
            Rat { n: -n, d: -d }
        } else {
            Rat { n, d }
        }
    }
    fn add(self, o: Rat) -> Option<Rat> {
        if self.d == 1 && o.d == 1 {
            return Some(Rat { n: self.n.checked_add(o.n)?, d: 1 });
        }
        let n = self.n.checked_mul(o.d)?.checked_add(o.n.checked_mul(self.d)?)?;
        Some(Rat::mk(n, self.d.checked_mul(o.d)?))
    }
    fn mul(self, o: Rat) -> Option<Rat> {
        if self.d == 1 && o.d == 1 {
            return Some(Rat { n: self.n.checked_mul(o.n)?, d: 1 });
        }
        Some(Rat::mk(self.n.checked_mul(o.n)?, self.d.checked_mul(o.d)?))
    }
    fn neg(self) -> Rat {
        Rat { n: -self.n, d: self.d }
    }
    fn inv(self) -> Rat {
        if self.n < 0 {
            Rat { n: -self.d, d: -self.n }
        } else {
            Rat { n: self.d, d: self.n }
        }
    }
    fn lt(self, o: Rat) -> Option<bool> {
        if self.d == o.d {
            return Some(self.n < o.n);
        }
        Some(self.n.checked_mul(o.d)? < o.n.checked_mul(self.d)?)
    }
    fn is0(self) -> bool {
        self.n == 0
    }
}

/// Is {l >= 0 for l in cons} (plus intrinsic symbol bounds) infeasible over the rationals?
/// `false` also when arithmetic overflows (unknown).
fn infeasible_simplex(cons: &[&Lin]) -> bool {
    simplex(cons).unwrap_or(false)
}

fn simplex(cons: &[&Lin]) -> Option<bool> {
    // variables
    let mut vars: BTreeMap<S, usize> = BTreeMap::new();
    for l in cons {
        for (s, _) in &l.t {
            let n = vars.len();
            vars.entry(*s).or_insert(n);
        }
    }
    // renumber deterministic
    for (i, (_, v)) in vars.iter_mut().enumerate() {
        *v = i;
    }
    let nv = vars.len();
    let mut lo: Vec<Option<Rat>> = vec![None; nv];
    let mut hi: Vec<Option<Rat>> = vec![None; nv];
    for (s, i) in &vars {
        let (l, h) = bounds(*s);
        lo[*i] = l.map(Rat::i);
        hi[*i] = h.map(Rat::i);
    }
    let mut rows: Vec<Vec<Rat>> = vec![]; // row: coefficients over nonbasic columns
    let mut row_lo: Vec<Rat> = vec![];
    for l in cons {
        if l.t.is_empty() {
            if l.c < 0 {
                return Some(true);
            }
            continue;
        }
        if l.t.len() == 1 {
            let (s, k) = l.t[0];
            let i = vars[&s];
            let (fl, ce) = (l.c.div_euclid(k.abs()), 0);
            let _ = ce;
            if k > 0 {
                // k*x >= -c  => x >= ceil(-c/k) = -floor(c/k)
                let b = Rat::i(-fl);
                if lo[i].map_or(true, |o| o.lt(b).unwrap_or(false)) {
                    lo[i] = Some(b);
                }
            } else {
                // |k| x <= c => x <= floor(c/|k|)
                let b = Rat::i(fl);
                if hi[i].map_or(true, |o| b.lt(o).unwrap_or(false)) {
                    hi[i] = Some(b);
                }
            }
            continue;
        }
        let mut g = 0;
        for (_, k) in &l.t {
            g = gcd(g, *k);
        }
        let mut r = vec![Rat::Z; nv];
        for (s, k) in &l.t {
            r[vars[s]] = Rat::i(k / g);
        }
        rows.push(r);
        row_lo.push(Rat::i(-(l.c.div_euclid(g))));
    }
    for i in 0..nv {
        if let (Some(a), Some(b)) = (lo[i], hi[i]) {
            if b.lt(a)? {
                return Some(true);
            }
        }
    }
    let m = rows.len();
    if m == 0 {
        return Some(false);
    }
    // variables 0..nv original, nv..nv+m slack with lower bound
    let tot = nv + m;
    let mut lb: Vec<Option<Rat>> = lo;
    let mut ub: Vec<Option<Rat>> = hi;
    for i in 0..m {
        lb.push(Some(row_lo[i]));
        ub.push(None);
    }
    let mut val: Vec<Rat> = vec![Rat::Z; tot];
    for i in 0..nv {
        val[i] = match (lb[i], ub[i]) {
            (Some(a), _) if Rat::Z.lt(a)? => a,
            (_, Some(b)) if b.lt(Rat::Z)? => b,
            _ => Rat::Z,
        };
    }
    let mut basic: Vec<usize> = (nv..tot).collect(); // basic var of each row
    let mut cols: Vec<usize> = (0..nv).collect(); // nonbasic var of each column
    for i in 0..m {
        let mut v = Rat::Z;
        for j in 0..nv {
            if !rows[i][j].is0() {
                v = v.add(rows[i][j].mul(val[cols[j]])?)?;
            }
        }
        val[nv + i] = v;
    }
    for _iter in 0..2000 {
        // pick violating basic var with smallest index (Bland)
        let mut pick: Option<(usize, bool)> = None;
        let mut best = usize::MAX;
        for i in 0..m {
            let b = basic[i];
            if b < best {
                if let Some(l) = lb[b] {
                    if val[b].lt(l)? {
                        pick = Some((i, true));
                        best = b;
                        continue;
                    }
                }
                if let Some(u) = ub[b] {
                    if u.lt(val[b])? {
                        pick = Some((i, false));
                        best = b;
                    }
                }
            }
        }
        let Some((i, below)) = pick else { return Some(false) };
        let b = basic[i];
        let target = if below { lb[b].unwrap() } else { ub[b].unwrap() };
        let mut jbest: Option<usize> = None;
        let mut bestv = usize::MAX;
        for j in 0..nv {
            let a = rows[i][j];
            if a.is0() {
                continue;
            }
            let x = cols[j];
            let inc = (a.n > 0) == below; // x must increase
            let ok = if inc {
                match ub[x] {
                    None => true,
                    Some(u) => val[x].lt(u)?,
                }
            } else {
                match lb[x] {
                    None => true,
                    Some(l) => l.lt(val[x])?,
                }
            };
            if ok && x < bestv {
                bestv = x;
                jbest = Some(j);
            }
        }
        let Some(j) = jbest else { return Some(true) };
        // pivot row i, column j
        let x = cols[j];
        let a = rows[i][j];
        let theta = target.add(val[b].neg())?.mul(a.inv())?;
        val[b] = target;
        val[x] = val[x].add(theta)?;
        for k in 0..m {
            if k != i && !rows[k][j].is0() {
                let bk = basic[k];
                val[bk] = val[bk].add(rows[k][j].mul(theta)?)?;
            }
        }
        // row i: b = sum a_k x_k  => x = (b - sum_{k!=j} a_k x_k)/a
        let ainv = a.inv();
        for k in 0..nv {
            if k == j {
                rows[i][k] = ainv;
            } else if !rows[i][k].is0() {
                rows[i][k] = rows[i][k].mul(ainv)?.neg();
            }
        }
        basic[i] = x;
        cols[j] = b;
        for k in 0..m {
            if k == i {
                continue;
            }
            let f = rows[k][j];
            if f.is0() {
                continue;
            }
            rows[k][j] = Rat::Z;
            for c in 0..nv {
                let r = rows[i][c];
                if !r.is0() {
                    rows[k][c] = rows[k][c].add(f.mul(r)?)?;
                }
            }
        }
        let _ = Rat::ONE;
    }
    None
}

#[derive(Clone, Default, Debug)]
pub struct Num {
    pub ge: BTreeSet<Lin>, // l >= 0
    pub ne: BTreeSet<Lin>, // l != 0 (sign-normalised)
    pub bot: bool,
}

thread_local! {
    static CACHE: RefCell<HashMap<Vec<Lin>, bool>> = RefCell::new(HashMap::new());
    pub static STATS: RefCell<(u64, u64)> = RefCell::new((0, 0));
}
pub fn clear_cache() {
    CACHE.with(|c| c.borrow_mut().clear());
}

fn norm_ge(l: &Lin) -> Lin {
    let mut g = 0;
    for (_, k) in &l.t {
        g = gcd(g, *k);
    }
    if g > 1 {
        Lin { c: l.c.div_euclid(g), t: l.t.iter().map(|(s, k)| (*s, k / g)).collect() }
    } else {
        l.clone()
    }
}
fn norm_sign(l: &Lin) -> Lin {
    if l.t.first().map_or(false, |x| x.1 < 0) {
        l.neg()
    } else {
        l.clone()
    }
}

impl Num {
    /// cheap lower bound of l from intrinsic bounds only
    fn quick_lo(l: &Lin) -> Option<i128> {
        let mut v = l.c;
        for (s, k) in &l.t {
            let (lo, hi) = bounds(*s);
            let b = if *k > 0 { lo? } else { hi? };
            v = v.checked_add(k.checked_mul(b)?)?;
        }
        Some(v)
    }

    fn relevant<'a>(&'a self, seed: &Lin) -> Vec<&'a Lin> {
        let mut vars: BTreeSet<S> = seed.t.iter().map(|x| x.0).collect();
        let mut out: Vec<&Lin> = vec![];
        let mut rest: Vec<&Lin> = self.ge.iter().collect();
        loop {
            let before = out.len();
            rest.retain(|l| {
                if l.t.iter().any(|(s, _)| vars.contains(s)) {
                    out.push(l);
                    false
                } else {
                    true
                }
            });
            if out.len() == before {
                break;
            }
            for l in &out[before..] {
                for (s, _) in &l.t {
                    vars.insert(*s);
                }
            }
        }
        out
    }

    pub fn entails_ge(&self, l: &Lin) -> bool {
        if self.bot {
            return true;
        }
        if let Some(c) = l.is_const() {
            return c >= 0;
        }
        if let Some(v) = Num::quick_lo(l) {
            if v >= 0 {
                return true;
            }
        }
        let l = &norm_ge(l);
        // syntactic: same linear part with smaller-or-equal constant
        for x in &self.ge {
            if x.t == l.t && x.c <= l.c {
                return true;
            }
        }
        let mut rel: Vec<Lin> = self.relevant(l).into_iter().cloned().collect();
        let neg = l.neg().plus(-1);
        rel.push(neg);
        rel.sort();
        if let Some(r) = CACHE.with(|c| c.borrow().get(&rel).copied()) {
            STATS.with(|s| s.borrow_mut().1 += 1);
            return r;
        }
        STATS.with(|s| s.borrow_mut().0 += 1);
        let refs: Vec<&Lin> = rel.iter().collect();
        let r = infeasible_simplex(&refs);
        CACHE.with(|c| {
            let mut c = c.borrow_mut();
            if c.len() > 400_000 {
                c.clear();
            }
            c.insert(rel, r)
        });
        r
    }
    pub fn entails_eq(&self, l: &Lin) -> bool {
        if let Some(c) = l.is_const() {
            return c == 0 || self.bot;
        }
        self.entails_ge(l) && self.entails_ge(&l.neg())
    }
    pub fn entails_ne(&self, l: &Lin) -> bool {
        if self.bot {
            return true;
        }
        if let Some(c) = l.is_const() {
            return c != 0;
        }
        if self.ne.contains(&norm_sign(l)) {
            return true;
        }
        if self.entails_ge(&l.plus(-1)) || self.entails_ge(&l.neg().plus(-1)) {
            return true;
        }
        // modulo known disequalities (same up to provable equality)
        for n in &self.ne {
            if n.t.iter().any(|(s, _)| l.coef(*s) != 0) && n.t.len() <= 3 {
                let d = n.sub(l);
                let e = n.add(l);
                if self.entails_eq(&d) || self.entails_eq(&e) {
                    return true;
                }
            }
        }
        // congruence: terms equal as functions but with args provably equal
        false
    }
    pub fn feasible(&self) -> bool {
        if self.bot {
            return false;
        }
        true
    }
    fn check_feasible_with(&self, l: &Lin) -> bool {
        // is self ∧ l>=0 feasible?
        !self.entails_ge(&l.neg().plus(-1))
    }
    /// add l >= 0; returns false if the result is infeasible
    pub fn add_ge(&mut self, l: &Lin) -> bool {
        if self.bot {
            return false;
        }
        let mut l = norm_ge(l);
        if let Some(c) = l.is_const() {
            if c < 0 {
                self.bot = true;
            }
            return !self.bot;
        }
        if let Some(v) = Num::quick_lo(&l) {
            if v >= 0 {
                return true;
            }
        }
        // tighten using disequalities at the boundary: l >= 0 and l != 0 => l >= 1
        loop {
            if self.ne.contains(&norm_sign(&l)) {
                l = l.plus(-1);
            } else {
                break;
            }
        }
        for x in &self.ge {
            if x.t == l.t && x.c <= l.c {
                return true;
            }
        }
        if !self.check_feasible_with(&l) {
            self.bot = true;
            return false;
        }
        let weaker: Vec<Lin> = self.ge.iter().filter(|x| x.t == l.t).cloned().collect();
        for w in weaker {
            self.ge.remove(&w);
        }
        self.ge.insert(l.clone());
        // if l <= 0 also known then l == 0; check disequalities
        let nes: Vec<Lin> = self.ne.iter().filter(|n| n.t.iter().any(|(s, _)| l.coef(*s) != 0)).cloned().collect();
        for n in nes {
            if self.entails_ge(&n) {
                if self.entails_ge(&n.neg()) {
                    self.bot = true;
                    return false;
                }
                let m = n.plus(-1);
                if !self.ge.contains(&m) && n.t.len() <= 3 {
                    self.ge.insert(norm_ge(&m));
                }
            } else if self.entails_ge(&n.neg()) {
                let m = n.neg().plus(-1);
                if !self.ge.contains(&m) && n.t.len() <= 3 {
                    self.ge.insert(norm_ge(&m));
                }
            }
        }
        true
    }
    pub fn add_eq(&mut self, l: &Lin) -> bool {
        self.add_ge(l) && self.add_ge(&l.neg())
    }
    pub fn add_ne(&mut self, l: &Lin) -> bool {
        if self.bot {
            return false;
        }
        if let Some(c) = l.is_const() {
            if c == 0 {
                self.bot = true;
            }
            return !self.bot;
        }
        if self.entails_ge(l) {
            return self.add_ge(&l.plus(-1));
        }
        if self.entails_ge(&l.neg()) {
            return self.add_ge(&l.neg().plus(-1));
        }
        self.ne.insert(norm_sign(l));
        true
    }
    pub fn subst(&mut self, m: &mut Subst) {
        let ge: Vec<Lin> = std::mem::take(&mut self.ge).into_iter().collect();
        for l in ge {
            let n = m.lin(&l);
            match n.is_const() {
                Some(c) => {
                    if c < 0 {
                        self.bot = true
                    }
                }
                None => {
                    self.ge.insert(norm_ge(&n));
                }
            }
        }
        let ne: Vec<Lin> = std::mem::take(&mut self.ne).into_iter().collect();
        for l in ne {
            let n = m.lin(&l);
            match n.is_const() {
                Some(c) => {
                    if c == 0 {
                        self.bot = true
                    }
                }
                None => {
                    self.ne.insert(norm_sign(&n));
                }
            }
        }
    }
    pub fn const_bounds(&self, l: &Lin) -> (Option<i128>, Option<i128>) {
        // bounds from intrinsic + single-variable constraints
        let f = |l: &Lin| -> Option<i128> {
            let mut v = l.c;
            for (s, k) in &l.t {
                let (mut lo, mut hi) = bounds(*s);
                for x in &self.ge {
                    if x.t.len() == 1 && x.t[0].0 == *s {
                        let q = x.t[0].1;
                        if q == 1 {
                            lo = Some(lo.map_or(-x.c, |o| o.max(-x.c)));
                        } else if q == -1 {
                            hi = Some(hi.map_or(x.c, |o| o.min(x.c)));
                        }
                    }
                }
                let b = if *k > 0 { lo? } else { hi? };
                v = v.checked_add(k.checked_mul(b)?)?;
            }
            Some(v)
        };
        (f(l), f(&l.neg()).map(|x| -x))
    }
}
