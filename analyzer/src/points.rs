//! What fzf's two algorithms give for one word, as reference: followed on the
//! states the analysis of the code ended in, deciding with the facts of the
//! state and splitting it where they do not say.
use crate::interp::*;
use crate::leaf::*;
use crate::sem::*;
use crate::term::*;
use crate::val::*;

const MATCH: i128 = 16;
const BOUNDARY: i128 = 8;
const CONSECUTIVE: i128 = 4;
const FIRST: i128 = 2;
const GAP: [i128; 2] = [3, 1];

/// the word, the candidate and the bonuses of its characters
pub struct World1<'a> {
    pub it: &'a Interp,
    /// does character i of the word match character j of the candidate?
    pub eq: &'a dyn Fn(i128, i128) -> Cond,
    pub bonus: &'a dyn Fn(i128) -> Lin,
    pub m: i128,
    pub n: i128,
}
#[derive(Clone)]
pub struct Outcome {
    pub score: Lin,
    pub marks: Vec<i128>,
    /// where the search of the word ended
    pub span: (i128, i128),
}
type Out = Vec<(State, Option<Outcome>)>;

impl World1<'_> {
    fn fork(&self, s: State, c: &Cond) -> (Vec<State>, Vec<State>) {
        split(self.it, vec![s], c)
    }
    fn max(&self, v: Vec<State>, a: &Lin, b: &Lin) -> Vec<(State, Lin)> {
        let mut out = vec![];
        for s in v {
            let (y, n) = self.fork(s, &ge(a, b));
            out.extend(y.into_iter().map(|s| (s, a.clone())));
            out.extend(n.into_iter().map(|s| (s, b.clone())));
        }
        out
    }
    /// the first place each character of the word is found at
    fn forward(&self, s: &State) -> Vec<(State, Option<Vec<i128>>)> {
        let mut out = vec![];
        let mut work = vec![(s.clone(), vec![], 0)];
        while let Some((s, at, j)) = work.pop() {
            let i = at.len() as i128;
            if i == self.m {
                out.push((s, Some(at)));
            } else if j >= self.n {
                out.push((s, None));
            } else {
                let (y, n) = self.fork(s, &(self.eq)(i, j));
                work.extend(y.into_iter().map(|s| (s, at.iter().copied().chain([j]).collect(), j + 1)));
                work.extend(n.into_iter().map(|s| (s, at.clone(), j + 1)));
            }
        }
        out
    }
    /// the last place character i is found at, at or before j
    fn backward(&self, s: State, i: i128, j: i128) -> Vec<(State, i128)> {
        let mut out = vec![];
        let mut work = vec![(s, j)];
        while let Some((s, j)) = work.pop() {
            if j < 0 {
                continue;
            }
            let (y, n) = self.fork(s, &(self.eq)(i, j));
            out.extend(y.into_iter().map(|s| (s, j)));
            work.extend(n.into_iter().map(|s| (s, j - 1)));
        }
        out
    }
    /// points of the characters a..b, matched one after the other
    pub fn points(&self, s: &State, a: i128, b: i128) -> Vec<(State, Outcome)> {
        #[derive(Clone)]
        struct P {
            j: i128,
            gap: bool,
            first: Option<Lin>,
            score: Lin,
            marks: Vec<i128>,
        }
        let mut out = vec![];
        let mut work = vec![(s.clone(), P { j: a, gap: false, first: None, score: Lin::k(0), marks: vec![] })];
        while let Some((s, p)) = work.pop() {
            let i = p.marks.len() as i128;
            if p.j >= b || i == self.m {
                out.push((s, Outcome { score: p.score, marks: p.marks, span: (a, b) }));
                continue;
            }
            let (y, n) = self.fork(s, &(self.eq)(i, p.j));
            for s in n {
                let score = p.score.plus(-GAP[p.gap as usize]);
                work.push((s, P { j: p.j + 1, gap: true, first: None, score, marks: p.marks.clone() }));
            }
            let own = (self.bonus)(p.j);
            for s in y {
                // (state, bonus, bonus of the first of the run)
                let mut v = vec![];
                match &p.first {
                    None => v.push((s, own.clone(), own.clone())),
                    Some(f) => {
                        let (up, no) = self.fork(s, &Cond::And(vec![ge(&own, &Lin::k(BOUNDARY)), ge(&own, &f.plus(1))]).norm());
                        let both = up.into_iter().map(|s| (s, own.clone())).chain(no.into_iter().map(|s| (s, f.clone())));
                        for (s, f) in both {
                            for (s, x) in self.max(vec![s], &own, &f) {
                                for (s, x) in self.max(vec![s], &x, &Lin::k(CONSECUTIVE)) {
                                    v.push((s, x, f.clone()));
                                }
                            }
                        }
                    }
                }
                for (s, x, f) in v {
                    let score = p.score.add(&x.scale(if i == 0 { FIRST } else { 1 })).plus(MATCH);
                    let marks = p.marks.iter().copied().chain([p.j]).collect();
                    work.push((s, P { j: p.j + 1, gap: false, first: Some(f), score, marks }));
                }
            }
        }
        out
    }
    /// the first occurrence to end, shortened from the left
    pub fn v1(&self, s: &State) -> Out {
        let mut out = vec![];
        for (s, at) in self.forward(s) {
            let Some(at) = at else {
                out.push((s, None));
                continue;
            };
            let end = at[at.len() - 1];
            let mut cur = vec![(s, end + 1)];
            for i in (0..self.m).rev() {
                cur = cur.into_iter().flat_map(|(s, j)| self.backward(s, i, j - 1)).collect();
            }
            for (s, start) in cur {
                out.extend(self.points(&s, start, end + 1).into_iter().map(|(s, o)| (s, Some(o))));
            }
        }
        out
    }
    /// the highest bonus of a single character, the first one on a tie
    pub fn single(&self, s: &State) -> Out {
        let mut out = vec![];
        let mut work: Vec<(State, i128, Option<i128>)> = vec![(s.clone(), 0, None)];
        while let Some((s, j, best)) = work.pop() {
            if j == self.n {
                let o = best.map(|b| Outcome { score: (self.bonus)(b).scale(FIRST).plus(MATCH), marks: vec![b], span: (b, b + 1) });
                out.push((s, o));
                continue;
            }
            let (y, n) = self.fork(s, &(self.eq)(0, j));
            work.extend(n.into_iter().map(|s| (s, j + 1, best)));
            for s in y {
                let Some(b) = best else {
                    work.push((s, j + 1, Some(j)));
                    continue;
                };
                let (y, n) = self.fork(s, &ge(&(self.bonus)(j), &(self.bonus)(b).plus(1)));
                work.extend(y.into_iter().map(|s| (s, j + 1, Some(j))));
                work.extend(n.into_iter().map(|s| (s, j + 1, best)));
            }
        }
        out
    }
    /// fzf's matrix of scores: row i, column j is the best score of the first
    /// i + 1 characters of the word that ends at or before column j
    pub fn v2(&self, s: &State) -> Out {
        let mut out = vec![];
        for (s, at) in self.forward(s) {
            let Some(at) = at else {
                out.push((s, None));
                continue;
            };
            for (s, last) in self.backward(s, self.m - 1, self.n - 1) {
                out.extend(self.matrix(s, &at, last));
            }
        }
        out
    }
    fn matrix(&self, s: State, at: &[i128], last: i128) -> Out {
        #[derive(Clone)]
        struct P {
            h: Vec<Vec<Lin>>,
            c: Vec<Vec<i128>>,
            gap: bool,
            best: Lin,
            end: i128,
        }
        let f0 = at[0];
        let w = (last + 1 - f0) as usize;
        let m = self.m as usize;
        let zero = Lin::k(0);
        let mut cur = vec![(s, P { h: vec![vec![zero.clone(); w]; m], c: vec![vec![0; w]; m], gap: false, best: zero.clone(), end: 0 })];
        for i in 0..m {
            let from = (at[i] - f0) as usize;
            for p in &mut cur {
                p.1.gap = false;
            }
            for col in from..w {
                let j = f0 + col as i128;
                let own = (self.bonus)(j);
                let mut next = vec![];
                for (s, p) in cur {
                    let left0 = if col > from { p.h[i][col - 1].clone() } else { zero.clone() };
                    let left = left0.plus(-GAP[p.gap as usize]);
                    let (y, n) = self.fork(s, &(self.eq)(i as i128, j));
                    // no match: the gap goes on
                    for (s, h) in self.max(n, &left, &zero) {
                        let mut p = p.clone();
                        p.h[i][col] = h;
                        p.gap = true;
                        next.push((s, p));
                    }
                    // (state, score of matching here, characters in a row, gap goes on)
                    let mut v: Vec<(State, Lin, i128, bool)> = vec![];
                    if i == 0 {
                        v.extend(y.into_iter().map(|s| (s, own.scale(FIRST).plus(MATCH), 1, false)));
                    } else {
                        let diag = p.h[i - 1][col - 1].plus(MATCH);
                        let run = p.c[i - 1][col - 1] + 1;
                        let mut w: Vec<(State, Lin, i128)> = vec![];
                        if run > 1 {
                            let fb = (self.bonus)(j + 1 - run);
                            for s in y {
                                let (brk, no) = self.fork(s, &Cond::And(vec![ge(&own, &Lin::k(BOUNDARY)), ge(&own, &fb.plus(1))]).norm());
                                w.extend(brk.into_iter().map(|s| (s, own.clone(), 1)));
                                for (s, x) in self.max(no, &own, &fb) {
                                    w.extend(self.max(vec![s], &x, &Lin::k(CONSECUTIVE)).into_iter().map(|(s, x)| (s, x, run)));
                                }
                            }
                        } else {
                            w.extend(y.into_iter().map(|s| (s, own.clone(), run)));
                        }
                        for (s, b, run) in w {
                            let (worse, fine) = self.fork(s, &ge(&left.plus(-1), &diag.add(&b)));
                            v.extend(fine.into_iter().map(|s| (s, diag.add(&b), run, false)));
                            for s in worse {
                                let here = diag.add(&own);
                                let (g, n) = self.fork(s, &ge(&left.plus(-1), &here));
                                v.extend(g.into_iter().map(|s| (s, here.clone(), 0, true)));
                                v.extend(n.into_iter().map(|s| (s, here.clone(), 0, false)));
                            }
                        }
                    }
                    for (s, here, run, gap) in v {
                        let opts = if i == 0 { vec![(s, here.clone())] } else { self.max(vec![s], &left, &here) };
                        for (s, h) in opts {
                            for (s, h) in self.max(vec![s], &h, &zero) {
                                let mut p = p.clone();
                                p.h[i][col] = h.clone();
                                p.c[i][col] = run;
                                p.gap = gap;
                                if i + 1 < m {
                                    next.push((s, p));
                                    continue;
                                }
                                let (y, n) = self.fork(s, &ge(&h, &p.best.plus(1)));
                                next.extend(n.into_iter().map(|s| (s, p.clone())));
                                p.best = h;
                                p.end = col as i128;
                                next.extend(y.into_iter().map(|s| (s, p.clone())));
                            }
                        }
                    }
                }
                cur = next;
            }
        }
        let mut out = vec![];
        for (s, p) in cur {
            for (s, marks) in self.trace(s, &p.h, &p.c, at, f0, p.end) {
                let span = (marks.first().copied().unwrap_or(0), marks.last().map_or(0, |x| x + 1));
                out.push((s, Some(Outcome { score: p.best.clone(), marks, span })));
            }
        }
        out
    }
    fn trace(&self, s: State, h: &[Vec<Lin>], c: &[Vec<i128>], at: &[i128], f0: i128, end: i128) -> Vec<(State, Vec<i128>)> {
        let mut out = vec![];
        let zero = Lin::k(0);
        let mut work: Vec<(State, usize, i128, bool, Vec<i128>)> = vec![(s, h.len() - 1, end, true, vec![])];
        while let Some((s, i, j, prefer, marks)) = work.pop() {
            if j < 0 {
                out.push((s, marks));
                continue;
            }
            let ju = j as usize;
            let here = &h[i][ju];
            let up = if i > 0 && j > 0 { &h[i - 1][ju - 1] } else { &zero };
            let left = if j + f0 > at[i] { &h[i][ju - 1] } else { &zero };
            let mut is = vec![ge(here, &up.plus(1))];
            is.push(if prefer { ge(here, left) } else { ge(here, &left.plus(1)) });
            let next = c[i][ju] > 1 || (i + 1 < h.len() && ju + 1 < c[i].len() && c[i + 1][ju + 1] > 0);
            let (y, n) = self.fork(s, &Cond::And(is).norm());
            for s in y {
                let mut marks = marks.clone();
                marks.insert(0, f0 + j);
                if i == 0 {
                    out.push((s, marks));
                } else {
                    work.push((s, i - 1, j - 1, next, marks));
                }
            }
            work.extend(n.into_iter().map(|s| (s, i, j - 1, next, marks.clone())));
        }
        out
    }
}
