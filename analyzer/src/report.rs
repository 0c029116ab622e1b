//! What one check found: obligations, their verdicts, and the JSON for the runner.
use crate::interp::{Interp, Verdict};
use std::collections::{BTreeMap, BTreeSet};

#[derive(Default)]
pub struct Rep {
    pub level: String,
    pub total: usize,
    pub proved: usize,
    pub viol: BTreeMap<String, (String, String, String)>,
    pub undecided: BTreeMap<String, String>,
    pub fns: BTreeSet<String>,
    pub samples: Vec<String>,
    pub rules: BTreeSet<String>,
    pub assumptions: BTreeSet<String>,
    pub numbers: BTreeMap<String, u64>,
    pub errors: Vec<String>,
    /// rules this check is about; empty: all
    pub only: Vec<&'static str>,
    /// whether the reads, slices and panics met on the way are obligations too
    pub panics: Vec<&'static str>,
}
pub const SAFE: &str = "every index, slice and character boundary is within bounds, no panic is reachable";

impl Rep {
    pub fn new(level: &str) -> Rep {
        Rep { level: level.into(), ..Default::default() }
    }
    /// records one obligation
    pub fn ob(&mut self, v: Verdict, rule: &str, key: &str, wher: &str, detail: &str) {
        if !self.only.is_empty() && !self.only.contains(&rule) {
            return;
        }
        self.total += 1;
        self.rules.insert(rule.into());
        match v {
            Verdict::Proved => {
                self.proved += 1;
                if self.samples.len() < 12 && !self.samples.iter().any(|s| s.contains(key)) {
                    self.samples.push(format!("{key} ({wher})"));
                }
            }
            Verdict::Definite => {
                self.viol.entry(key.to_string()).or_insert((wher.into(), rule.into(), detail.chars().take(1500).collect()));
            }
            Verdict::Unproven => {
                self.undecided.entry(format!("{key} ({wher})")).or_insert(detail.chars().take(1500).collect());
            }
        }
    }
    pub fn flag(&mut self, ok: bool, rule: &str, key: &str, wher: &str, detail: &str) {
        self.ob(if ok { Verdict::Proved } else { Verdict::Definite }, rule, key, wher, detail)
    }
    /// a value that must be a given constant; a value the analysis does not know stays undecided
    pub fn known(&mut self, got: Option<i128>, want: Option<i128>, rule: &str, key: &str, wher: &str) {
        let v = match (got, want) {
            (Some(a), Some(b)) if a == b => Verdict::Proved,
            (Some(_), Some(_)) => Verdict::Definite,
            _ => Verdict::Unproven,
        };
        self.ob(v, rule, key, wher, &format!("expected {want:?}, found {got:?}"))
    }
    pub fn absorb(&mut self, it: &Interp) {
        self.fns.extend(it.fns.keys().cloned());
        for e in &it.events {
            if self.panics.contains(&&*e.rule) {
                self.ob(e.verdict.clone(), SAFE, &e.key, &e.loc, &e.detail);
            }
        }
        *self.numbers.entry("abstract_steps".into()).or_default() += it.steps;
        self.note();
        for (k, n) in &it.unknown {
            if k.starts_with("unmodelled") {
                *self.numbers.entry("unmodelled_calls".into()).or_default() += n;
            }
        }
    }
    /// what was found so far, for the case that the run is stopped
    fn note(&self) {
        thread_local!(static LAST: std::cell::Cell<Option<std::time::Instant>> = const { std::cell::Cell::new(None) });
        let now = std::time::Instant::now();
        let Some(last) = LAST.get() else { return LAST.set(Some(now)) };
        if now.duration_since(last).as_secs() < 10 {
            return;
        }
        LAST.set(Some(now));
        if let Ok(out) = std::env::var("NORMCHECK_OUT") {
            let _ = std::fs::write(format!("{out}.new"), self.json());
            let _ = std::fs::rename(format!("{out}.new"), format!("{out}.part"));
        }
    }
    /// something the check looks for is not there: an undecided obligation, reported
    pub fn err(&mut self, m: String) {
        self.total += 1;
        self.errors.push(m)
    }
    pub fn json(&self) -> String {
        let mut o = String::from("{");
        o += &format!("\"level\":{},", q(&self.level));
        let viol: Vec<String> = self
            .viol
            .iter()
            .map(|(k, (w, r, d))| format!("{{\"key\":{},\"where\":{},\"rule\":{},\"detail\":{}}}", q(k), q(w), q(r), q(d)))
            .collect();
        o += &format!("\"violations\":[{}],", viol.join(","));
        o += &format!("\"errors\":{},", arr(&self.errors));
        o += &format!("\"assumptions\":{},", arr(&self.assumptions.iter().cloned().collect::<Vec<_>>()));
        let und: Vec<String> = self.undecided.iter().take(120).map(|(k, d)| format!("{k}: {d}")).collect();
        let nums: Vec<String> = self.numbers.iter().map(|(k, v)| format!("{}:{}", q(k), v)).collect();
        o += &format!(
            "\"coverage\":{{\"obligations\":{},\"discharged\":{},\"undecided\":{},\"undecided_list\":{},\"functions\":{},\"rules\":{},\"samples\":{},\"numbers\":{{{}}}}}",
            self.total,
            self.proved,
            self.total - self.proved - self.viol.len().min(self.total - self.proved),
            arr(&und),
            arr(&self.fns.iter().filter(|f| f.contains("norm::")).cloned().collect::<Vec<_>>()),
            arr(&self.rules.iter().cloned().collect::<Vec<_>>()),
            arr(&self.samples),
            nums.join(",")
        );
        o += "}";
        o
    }
}
/// the work of a check split over processes: NORMCHECK_SHARD=k/n
pub fn mine() -> bool {
    thread_local!(static AT: std::cell::Cell<usize> = const { std::cell::Cell::new(0) });
    let at = AT.with(|c| c.replace(c.get() + 1));
    let v = std::env::var("NORMCHECK_SHARD").unwrap_or_default();
    match v.split_once('/').and_then(|(k, n)| Some((k.parse::<usize>().ok()?, n.parse::<usize>().ok()?))) {
        Some((k, n)) if n > 0 => at % n == k,
        _ => true,
    }
}
pub fn q(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            c if (c as u32) < 32 => o += &format!("\\u{:04x}", c as u32),
            c => o.push(c),
        }
    }
    o + "\""
}
fn arr(v: &[String]) -> String {
    format!("[{}]", v.iter().map(|s| q(s)).collect::<Vec<_>>().join(","))
}
