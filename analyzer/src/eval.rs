//! Evaluates extracted formulas (linear constraints over named atoms, constant
//! tables and character predicates) at a point.
use crate::mat::table;
use crate::num::Num;
use crate::term::*;
use crate::val::*;

pub type Env<'a> = &'a dyn Fn(&str, &[i128]) -> Option<i128>;

pub fn lin(l: &Lin, e: Env) -> Option<i128> {
    let mut v = l.c;
    for (s, k) in &l.t {
        v += k * sym_val(*s, e)?;
    }
    Some(v)
}
pub fn sym_val(s: S, e: Env) -> Option<i128> {
    match sym_kind(s) {
        SymKind::App(f, args) => {
            if let Some(t) = f.strip_suffix("[]").and_then(table) {
                let Some(Arg::L(i)) = args.last() else { return None };
                let i = lin(i, e)?;
                return match t.get(usize::try_from(i).ok()?)? {
                    Val::Int(l) => l.is_const(),
                    Val::Bool(Cond::T) => Some(1),
                    Val::Bool(Cond::F) => Some(0),
                    Val::Enum(d, _) => d.is_const(),
                    _ => None,
                };
            }
            let mut a = vec![];
            for x in &args {
                match x {
                    Arg::L(l) => a.push(lin(l, e)?),
                    Arg::O(_) => return None,
                }
            }
            if let Some(v) = e(&f, &a) {
                return Some(v);
            }
            let c = |k: usize| char::from_u32(*a.get(k)? as u32);
            let b = |x: bool| Some(x as i128);
            match f.as_str() {
                "is_lowercase" => b(c(0)?.is_lowercase()),
                "is_uppercase" => b(c(0)?.is_uppercase()),
                "is_numeric" => b(c(0)?.is_numeric()),
                "is_alphabetic" => b(c(0)?.is_alphabetic()),
                "is_alphanumeric" => b(c(0)?.is_alphanumeric()),
                "is_whitespace" => b(c(0)?.is_whitespace()),
                "is_control" => b(c(0)?.is_control()),
                "lower_eq" => b(c(0)?.to_lowercase().eq(c(1)?.to_lowercase())),
                "upper_eq" => b(c(0)?.to_uppercase().eq(c(1)?.to_uppercase())),
                "len8" => Some(c(0)?.len_utf8() as i128),
                "xor" => Some(a[0] ^ a[1]),
                "bitor" => Some(a[0] | a[1]),
                "bitand" => Some(a[0] & a[1]),
                "mul" => Some(a[0] * a[1]),
                "div" if a[1] != 0 => Some(a[0] / a[1]),
                "rem" if a[1] != 0 => Some(a[0] % a[1]),
                _ => None,
            }
        }
        _ => None,
    }
}
pub fn cond(c: &Cond, e: Env) -> Option<bool> {
    match c {
        Cond::T => Some(true),
        Cond::F => Some(false),
        Cond::Ge(l) => Some(lin(l, e)? >= 0),
        Cond::Eq(l) => Some(lin(l, e)? == 0),
        Cond::Ne(l) => Some(lin(l, e)? != 0),
        Cond::And(v) => {
            let mut r = Some(true);
            for c in v {
                match cond(c, e) {
                    Some(false) => return Some(false),
                    None => r = None,
                    _ => {}
                }
            }
            r
        }
        Cond::Or(v) => {
            let mut r = Some(false);
            for c in v {
                match cond(c, e) {
                    Some(true) => return Some(true),
                    None => r = None,
                    _ => {}
                }
            }
            r
        }
        Cond::Unk(_) => None,
    }
}
/// is the point inside the region? None: it depends on something not evaluable
pub fn num(n: &Num, e: Env) -> Option<bool> {
    if n.bot {
        return Some(false);
    }
    let mut r = Some(true);
    for l in n.ge.iter() {
        match lin(l, e) {
            Some(v) if v < 0 => return Some(false),
            None => r = None,
            _ => {}
        }
    }
    for l in n.ne.iter() {
        match lin(l, e) {
            Some(0) => return Some(false),
            None => r = None,
            _ => {}
        }
    }
    r
}
/// scalar value of a result at a point
pub fn val(v: &Val, e: Env) -> Option<i128> {
    match v {
        Val::Int(l) => lin(l, e),
        Val::Bool(c) => cond(c, e).map(|b| b as i128),
        Val::Enum(d, _) => lin(d, e),
        _ => None,
    }
}
