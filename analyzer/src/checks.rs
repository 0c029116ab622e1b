//! The checks, by property.
use crate::buffers;
use crate::effects;
use crate::bytes;
use crate::fuzzy;
use crate::leaf;
use crate::query;
use crate::ranges;
use crate::report::*;
use crate::search;
use crate::sem;
use crate::split;
use crate::tables;
use crate::twins;

pub fn check(id: &str, tier: &str) -> Rep {
    let mut rep = Rep::new(if ["C01", "C03", "C13", "C04", "C08", "C09", "C10", "C20", "C21", "C25", "C26", "C27"].contains(&id) { "other" } else { "proof" });
    match id {
        "C12" => {
            tables::case_modes(&mut rep);
            tables::comparisons(&mut rep, false);
        }
        "C14" => tables::comparisons(&mut rep, true),
        "C15" => tables::distance_order(&mut rep),
        "C16" => tables::scoring(&mut rep),
        "C17" => {
            tables::defaults(&mut rep);
            tables::setters(&mut rep);
        }
        "C01" => {
            rep.only = vec![query::KEPT, ranges::EARLIER, ranges::CLEARED, ranges::STARTS];
            query::queries(&mut rep);
            ranges::collector(&mut rep, if tier == "thorough" { 9 } else { 6 });
        }
        "C10" => {
            rep.only = vec![query::VERDICT, query::SUM, query::ASKED, query::GIVEN];
            query::queries(&mut rep)
        }
        "C04" => {
            rep.only = vec![fuzzy::FRESH, fuzzy::SETTINGS];
            query::queries(&mut rep);
            fuzzy::history(&mut rep, tier == "thorough");
        }
        "C03" => twins::check(&mut rep, tier == "thorough"),
        "C07" => buffers::check(&mut rep),
        "C06" => split::plain(&mut rep),
        "C25" => split::words(&mut rep, if tier == "thorough" { 8 } else { 6 }),
        "C08" => bytes::conversions(&mut rep, 8),
        "C09" => ranges::collector(&mut rep, if tier == "thorough" { 9 } else { 6 }),
        "C20" => fuzzy::words(&mut rep, &[fuzzy::POINTS, fuzzy::PLACE], "V1", tier == "thorough"),
        "C21" => fuzzy::words(&mut rep, &[fuzzy::FOUND, fuzzy::MARKED, fuzzy::UNTOUCHED], "V", tier == "thorough"),
        "C27" => fuzzy::words(&mut rep, &[fuzzy::POINTS, fuzzy::PLACE], "V2", tier == "thorough"),
        "X" => fuzzy::explore(&mut rep),
        "C19" => leaf::anchored(&mut rep),
        "C26" => leaf::substring(&mut rep, if tier == "thorough" { 6 } else { 6 }),
        "C18" => search::searches(&mut rep),
        "C23" => effects::check(&mut rep),
        "C24" => tables::clones(&mut rep),
        "C13" => safe(&mut rep, tier),
        "C11" => sem::pattern_syntax(&mut rep),
        _ => rep.err(format!("no check for {id}")),
    }
    rep
}

/// the bounds and panics met by the searches and parses the other checks analyse
fn safe(rep: &mut Rep, tier: &str) {
    rep.only = vec![SAFE];
    const ALL: [&str; 7] = ["index", "slice", "boundary", "panic", "underflow", "div", "assert"];
    rep.panics = ALL.to_vec();
    let deep = tier == "thorough";
    let only = std::env::var("NC_ONLY").unwrap_or_default();
    let mut part = |n: &str, f: &mut dyn FnMut(&mut Rep)| {
        if only.is_empty() || only.split(',').any(|o| o == n) {
            let t = std::time::Instant::now();
            let (a, b, c) = (rep.total, rep.proved, rep.viol.len());
            // asked for directly, the working memory is asked for sizes no search asks for
            rep.panics.retain(|r| n != "buffers" || ["index", "slice", "boundary"].contains(r));
            f(rep);
            rep.panics = ALL.to_vec();
            if std::env::var("TIMES").is_ok() {
                eprintln!("{n}: {} obligations {} proved {} refuted {:?}", rep.total - a, rep.proved - b, rep.viol.len() - c, t.elapsed());
            }
        }
    };
    part("queries", &mut |r| if mine() { query::queries(r) });
    part("history", &mut |r| fuzzy::history(r, false));
    part("twins", &mut |r| twins::check(r, false));
    part("buffers", &mut |r| if mine() { buffers::check(r) });
    part("plain", &mut |r| split::plain(r));
    part("words", &mut |r| split::words(r, 6));
    part("bytes", &mut |r| if mine() { bytes::conversions(r, 8) });
    part("ranges", &mut |r| if mine() { ranges::collector(r, if deep { 9 } else { 6 }) });
    part("fuzzy", &mut |r| fuzzy::words(r, &[SAFE], "V", deep));
    part("anchored", &mut |r| if mine() { leaf::anchored(r) });
    part("substring", &mut |r| leaf::substring(r, 6));
    part("searches", &mut |r| if mine() { search::searches(r) });
    part("patterns", &mut |r| sem::pattern_syntax(r));
}
