//! C16: the diff of two profiles.
use crate::codec::{self, Layout, Meta};
use crate::driver::*;
use crate::model::{Hist, QueryModel, Run};
use crate::tools::{self, Piece};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub base: Hist,
    pub change: Hist,
    pub layout: Layout,
    pub old: (bool, bool),
    /// (label, first character, number of characters) of each exclusion
    pub exclude: Vec<(u8, u8, u8)>,
    pub mode: u8,
    /// the change is recorded with the base's operations, apart from a few
    pub edits: Option<Vec<(u16, u64)>>,
    /// where the profiles are
    #[serde(default)]
    pub place: (u8, u8),
}

#[derive(Default, Clone, Debug, PartialEq)]
pub struct Diff {
    pub self_time: i128,
    pub time: i128,
    pub misses: i64,
    pub hits: i64,
    pub invocations: i64,
    pub blocked: i128,
    pub load: i128,
    pub hashing: i128,
}

pub fn sub(c: &QueryModel, b: &QueryModel) -> Diff {
    let d = |x: u64, y: u64| x as i128 - y as i128;
    let n = |x: usize, y: usize| x as i64 - y as i64;
    Diff {
        self_time: d(c.self_time, b.self_time),
        time: d(c.time, b.time),
        misses: n(c.misses, b.misses),
        hits: n(c.hits, b.hits),
        invocations: n(c.invocations, b.invocations),
        blocked: d(c.blocked, b.blocked),
        load: d(c.load, b.load),
        hashing: d(c.hashing, b.hashing),
    }
}

struct Model {
    rows: BTreeMap<String, (Diff, Option<u64>, Option<u64>)>,
    artifacts: BTreeMap<String, i64>,
    total: i128,
}

fn model(base: &Run, change: &Run) -> Model {
    let (b, c) = (base.analysis(), change.analysis());
    let none = QueryModel::default();
    let labels: BTreeSet<&String> = b.keys().chain(c.keys()).collect();
    let rows = labels
        .into_iter()
        .map(|l| {
            let d = sub(c.get(l).unwrap_or(&none), b.get(l).unwrap_or(&none));
            (l.clone(), (d, b.get(l).map(|q| q.self_time), b.get(l).map(|q| q.time)))
        })
        .collect();
    let (b, c) = (base.artifacts(), change.artifacts());
    let labels: BTreeSet<&String> = b.keys().chain(c.keys()).collect();
    let artifacts = labels
        .into_iter()
        .map(|l| (l.clone(), c.get(l).copied().unwrap_or(0) as i64 - b.get(l).copied().unwrap_or(0) as i64))
        .collect();
    Model { rows, artifacts, total: change.total_time() as i128 - base.total_time() as i128 }
}

/// "+1.5ms" in nanoseconds.
fn parse_signed(s: &str) -> Option<i128> {
    let (sign, rest) = match s.as_bytes().first()? {
        b'+' => (1, &s[1..]),
        b'-' => (-1, &s[1..]),
        _ => (1, s),
    };
    let cut = rest.find(|c: char| !c.is_ascii_digit() && c != '.')?;
    let unit: u32 = match &rest[cut..] {
        "ns" => 0,
        "µs" | "μs" | "us" => 3,
        "ms" => 6,
        "s" => 9,
        _ => return None,
    };
    let (int, frac) = rest[..cut].split_once('.').unwrap_or((&rest[..cut], ""));
    if frac.len() > unit as usize {
        return None;
    }
    let mut v: i128 = int.parse().ok()?;
    for i in 0..unit as usize {
        v = v * 10 + frac.as_bytes().get(i).map_or(0, |c| (c - b'0') as i128);
    }
    Some(sign * v)
}

fn percent_ok(got: Option<f64>, diff: i128, base: Option<u64>, slack: f64) -> bool {
    match base {
        Some(b) if b > 0 => {
            let want = diff as f64 / b as f64 * 100.0;
            got.is_some_and(|g| (g - want).abs() <= slack + want.abs() * 1e-9)
        }
        // Relative to nothing, or 0/0.
        _ => true,
    }
}

fn check_table(out: &str, m: &Model, exclude: &[String]) -> Result<(), String> {
    let hit = |l: &str| exclude.iter().any(|e| l.contains(&e[..]));
    let ps = tools::pieces(out);
    let tables: Vec<_> = ps.iter().filter_map(|p| if let Piece::Table(t) = p { Some(t) } else { None }).collect();
    let lines: Vec<_> = ps.iter().filter_map(|p| if let Piece::Line(t) = p { Some(t) } else { None }).collect();
    ensure_eq!(tables.len(), 2, "number of tables in\n{out}");
    let rows = tables[0];
    let names = [
        "Item", "Self Time", "Self Time Change", "Time", "Time Change", "Item count", "Cache hits", "Blocked time",
        "Incremental load time", "Incremental hashing time",
    ];
    ensure_eq!(rows[0], names, "columns");
    let mut seen = BTreeSet::new();
    let mut last = u128::MAX;
    for r in &rows[1..] {
        ensure_eq!(r.len(), names.len(), "cells in row {r:?}");
        let Some((d, bs, bt)) = m.rows.get(&r[0]) else { return Err(format!("row for {:?}, which is no item", r[0])) };
        ensure!(seen.insert(r[0].clone()), "second row for {:?}", r[0]);
        for (i, want) in [(1, d.self_time), (3, d.time), (7, d.blocked), (8, d.load), (9, d.hashing)] {
            ensure_eq!(parse_signed(&r[i]), Some(want), "column {:?} of item {:?} (shown as {:?})", names[i], r[0], r[i]);
        }
        for (i, want) in [(5, d.invocations), (6, d.hits)] {
            ensure_eq!(r[i].parse::<i64>().ok(), Some(want), "column {:?} of item {:?} (shown as {:?})", names[i], r[0], r[i]);
        }
        for (i, diff, b) in [(2, d.self_time, bs), (4, d.time, bt)] {
            let got = r[i].strip_suffix('%').and_then(|s| s.parse().ok());
            ensure!(percent_ok(got, diff, *b, 0.006), "column {:?} of item {:?}: {:?} for {diff} relative to {b:?}", names[i], r[0], r[i]);
        }
        ensure!(d.self_time.unsigned_abs() <= last, "rows are not ordered by descending magnitude of the self-time change: {rows:?}");
        last = d.self_time.unsigned_abs();
    }
    for l in m.rows.keys() {
        ensure_eq!(seen.contains(l), !hit(l), "item {l:?} shown with exclusions {exclude:?}");
    }
    ensure_eq!(lines.len(), 1, "lines ({lines:?})");
    let total = lines[0].strip_prefix("Total cpu time: ").and_then(parse_signed);
    ensure_eq!(total, Some(m.total), "total time ({:?})", lines[0]);
    let art = tables[1];
    ensure_eq!(art[0], ["Item", "Artifact Size Change"], "columns of the artifact table");
    let mut seen = BTreeSet::new();
    for r in &art[1..] {
        let Some(v) = m.artifacts.get(&r[0]) else { return Err(format!("artifact row {r:?}")) };
        ensure!(seen.insert(r[0].clone()), "second artifact row for {:?}", r[0]);
        ensure_eq!(r[1].strip_suffix(" bytes").and_then(|s| s.parse::<i64>().ok()), Some(*v), "size change of artifact {:?} ({:?})", r[0], r[1]);
    }
    for l in m.artifacts.keys() {
        ensure_eq!(seen.contains(l), !hit(l), "artifact {l:?} shown with exclusions {exclude:?}");
    }
    Ok(())
}

fn signed(v: &Value) -> Option<i128> {
    let n = v["duration"]["secs"].as_u64()? as i128 * 1_000_000_000 + v["duration"]["nanos"].as_u64()? as i128;
    Some(if v["is_positive"].as_bool()? { n } else { -n })
}

fn check_json(b: &[u8], m: &Model) -> Result<(), String> {
    let v: Value = serde_json::from_slice(b).map_err(|e| format!("the diff is not JSON: {e}"))?;
    let rows = v["query_data"].as_array().ok_or("no query_data")?;
    let mut seen = BTreeSet::new();
    let mut last = u128::MAX;
    for r in rows {
        let l = r["label"].as_str().ok_or("no label")?.to_string();
        let Some((d, bs, bt)) = m.rows.get(&l) else { return Err(format!("JSON row for {l:?}, which is no item")) };
        let dur = |n: &str| signed(&r[n]).ok_or(format!("no {n} in {r}"));
        let num = |n: &str| r[n].as_i64().ok_or(format!("no {n} in {r}"));
        let got = Diff {
            self_time: dur("self_time")?,
            time: dur("time")?,
            misses: num("number_of_cache_misses")?,
            hits: num("number_of_cache_hits")?,
            invocations: num("invocation_count")?,
            blocked: dur("blocked_time")?,
            load: dur("incremental_load_time")?,
            hashing: dur("incremental_hashing_time")?,
        };
        ensure_eq!(&got, d, "JSON diff of item {l:?}");
        for (n, diff, b) in [("self_time_change", d.self_time, bs), ("time_change", d.time, bt)] {
            ensure!(percent_ok(r[n].as_f64(), diff, *b, 1e-9), "{n} of item {l:?}: {} for {diff} relative to {b:?}", r[n]);
        }
        ensure!(d.self_time.unsigned_abs() <= last, "JSON rows are not ordered by descending magnitude of the self-time change");
        last = d.self_time.unsigned_abs();
        ensure!(seen.insert(l.clone()), "second JSON row for {l:?}");
    }
    ensure_eq!(seen.len(), m.rows.len(), "number of JSON rows");
    let mut arts = BTreeMap::new();
    for r in v["artifact_sizes"].as_array().ok_or("no artifact_sizes")? {
        let l = r["label"].as_str().ok_or("no label")?.to_string();
        ensure!(arts.insert(l.clone(), r["size_change"].as_i64().ok_or("no size_change")?).is_none(), "second artifact {l:?}");
    }
    ensure_eq!(arts, m.artifacts, "JSON artifact size changes");
    ensure_eq!(signed(&v["total_time"]), Some(m.total), "JSON total time");
    Ok(())
}

pub struct P;
impl Prop for P {
    type Case = Case;
    const ID: &'static str = "C16";
    const RULE: &'static str = "Two generated recordings with overlapping labels (independent, or one an edited copy of the other), compared by the built summarize diff as table or JSON, with exclusions, swapped, with itself, and with either side replaced by the analysis saved as JSON; each metric is compared with the difference of the generated trees. Non-trivial: items with positive and with negative change of self time, or an item in only one profile.";
    const ASSUMPTIONS: &'static [&'static str] = &[
        "with line breaks, tabs or outer blanks in labels only JSON is compared (the table has no quoting)",
        "percentages of a change from zero are not looked at; the sign shown with a zero difference is free",
        "rows with the same magnitude of self-time change may come in any order, and so may artifact rows",
    ];
    fn cases(t: Tier) -> u32 {
        t.pick(25_000, 1_000_000)
    }
    fn strategy(_t: Tier) -> BoxedStrategy<Case> {
        (
            super::c15::hists(50),
            super::c15::hists(50),
            crate::model::layout(),
            any::<(bool, bool)>(),
            prop_oneof![3 => Just(vec![]).boxed(), 6 => proptest::collection::vec(any::<(u8, u8, u8)>(), 1..3).boxed(), 1 => proptest::collection::vec(any::<(u8, u8, u8)>(), 3..12).boxed()],
            0u8..8,
            proptest::option::weighted(0.4, proptest::collection::vec((any::<u16>(), crate::model::step(false)), 0..4)),
            any::<(u8, u8)>(),
        )
            .prop_map(|(base, mut change, layout, old, exclude, mode, edits, place)| {
                if let Some(e) = &edits {
                    change = base.clone();
                    for (i, d) in e {
                        if !change.ops.is_empty() {
                            let n = change.ops.len();
                            change.ops[*i as usize % n].1 = crate::model::Op::Adv(*d);
                        }
                    }
                } else {
                    // overlapping label pools
                    for (i, t) in base.texts.iter().enumerate() {
                        if i % 2 == 0 && !change.texts.contains(t) {
                            let n = change.texts.len();
                            change.texts[i % n] = t.clone();
                        }
                    }
                    let mut seen = BTreeSet::new();
                    change.texts.retain(|t| seen.insert(t.clone()));
                }
                Case { base, change, layout, old, exclude, mode, edits, place }
            })
            .boxed()
    }
    fn fixed(_t: Tier) -> Vec<Case> {
        let h = crate::model::big_hists;
        let mut v = vec![];
        for mode in 0..4 {
            for k in 0..h().len() {
                v.push(Case {
                    base: h()[k].clone(),
                    change: h()[(k + mode as usize) % h().len()].clone(),
                    layout: Layout::default(),
                    old: (k == 0, k == 1),
                    exclude: vec![],
                    mode,
                    edits: None,
                    place: (0, 0),
                });
            }
        }
        for (b, c) in [(66_000, 300), (2, 40_000)] {
            v.push(Case {
                base: crate::model::count_hist(b),
                change: crate::model::count_hist(c),
                layout: Layout::default(),
                old: (false, false),
                exclude: vec![],
                mode: (b % 3) as _,
                edits: None,
                place: (0, 0),
            });
        }
        v
    }
    fn check(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
        let dir = ctx.dir();
        let d = &dir.0;
        let (base, change) = (case.base.run(), case.change.run());
        let put = |name: &str, run: &Run, old: bool| {
            tools::write(&d.join(name), &codec::encode_file(&Meta::default(), &run.events, &case.layout, if old { 8 } else { 9 }));
        };
        // also two profiles of the same name
        let twins = case.mode == 0 && case.place.0 % 2 == 1;
        let moved = matches!(case.mode, 0..=2);
        let at = |k: u8, stem: &str| if moved { tools::place(d, k as u32 / 2, stem) } else { stem.to_string() };
        let (base_at, mut change_at) = (at(case.place.0, "base"), at(case.place.1, if twins { "base" } else { "change" }));
        if base_at == change_at || twins && (base_at.starts_with("up") || change_at.starts_with("up")) {
            change_at = "change".to_string();
        }
        let (base_at, change_at) = (&base_at[..], &change_at[..]);
        put(&format!("{base_at}.mm_profdata"), &base, case.old.0);
        put(&format!("{change_at}.mm_profdata"), &change, case.old.1);
        ctx.class_if(twins && change_at != "change", "two profiles of the same name");
        let diff = |args: &[&str]| {
            let a: Vec<std::ffi::OsString> = std::iter::once("diff").chain(args.iter().copied()).map(Into::into).collect();
            tools::run("summarize", d, &a).success(&format!("summarize {a:?}"))
        };
        let save = |name: &str| tools::run("summarize", d, &tools::args(["summarize", "--json", name])).success("summarize --json");
        let read = |name: &str| std::fs::read(d.join(name)).map_err(|e| format!("no {name} written: {e}"));
        let m = model(&base, &change);
        let tabular = super::c15::tabular(&base) && super::c15::tabular(&change);
        ctx.class_if(!tabular, "labels that a table cannot show");
        let check_table = |out: &str, m: &Model, ex: &[String]| if tabular { check_table(out, m, ex) } else { Ok(()) };
        // a saved analysis is used even with another profile of that name next to it
        let gone = |stem: &str, run: &Run| {
            let f = d.join(format!("{stem}.mm_profdata"));
            match case.layout.cuts.len() % 3 {
                0 => std::fs::remove_file(f).expect("harness: remove"),
                1 => tools::write(&f, b"not a profile"),
                _ => tools::write(&f, &codec::encode_file(&Meta::default(), &run.events, &case.layout, 9)),
            }
        };
        match case.mode {
            0 => {
                let o = diff(&[base_at, change_at])?;
                check_table(&o.stdout, &m, &[]).map_err(|e| format!("diff: {e}"))?;
            }
            1 => {
                ctx.class("exclusions");
                let labels: Vec<&String> = m.rows.keys().chain(m.artifacts.keys()).collect();
                let ex: Vec<String> = case
                    .exclude
                    .iter()
                    .map(|(l, a, n)| {
                        if labels.is_empty() {
                            return "zz".to_string();
                        }
                        let cs: Vec<char> = labels[*l as usize % labels.len()].chars().collect();
                        let a = *a as usize % cs.len();
                        let n = 1 + *n as usize % 5;
                        let s: String = cs[a..].iter().take(n).collect();
                        s
                    })
                    .collect();
                let mut args = vec![format!("{base_at}.mm_profdata"), format!("{change_at}.mm_profdata")];
                for (i, e) in ex.iter().enumerate() {
                    args.push(if i % 2 == 0 { format!("-e{e}") } else { format!("--exclude={e}") });
                }
                // clap reads "-e=x" as the value "x"
                if ex.iter().any(|e| e.starts_with('=')) {
                    return Ok(());
                }
                let a: Vec<&str> = args.iter().map(|s| &s[..]).collect();
                let o = diff(&a)?;
                check_table(&o.stdout, &m, &ex).map_err(|e| format!("diff {args:?}: {e}"))?;
                let hidden = m.rows.keys().filter(|l| ex.iter().any(|e| l.contains(&e[..]))).count();
                ctx.class_if(hidden > 0 && hidden < m.rows.len(), "some items excluded");
            }
            2 => {
                ctx.class("JSON");
                if case.layout.tail > 0 {
                    tools::stale(&d.join(format!("{change_at}.json")));
                }
                // Exclusions are for the tables.
                let ex = case.exclude.iter().filter_map(|(l, ..)| m.rows.keys().chain(m.artifacts.keys()).nth(*l as usize % (m.rows.len() + m.artifacts.len()).max(1)));
                let args: Vec<String> = ex.map(|e| format!("--exclude={e}")).chain(["--json", base_at, change_at].map(String::from)).collect();
                ctx.class_if(args.len() > 3, "JSON and exclusions");
                diff(&args.iter().map(|a| &a[..]).collect::<Vec<_>>())?;
                check_json(&read(&format!("{change_at}.json"))?, &m).map_err(|e| format!("diff {args:?}: {e}"))?;
            }
            3 => {
                ctx.class("saved analysis as base");
                if case.layout.tail > 0 {
                    tools::stale(&d.join("base.json"));
                }
                save("base")?;
                gone("base", &change);
                let o = diff(&["base.json", "change.mm_profdata"])?;
                check_table(&o.stdout, &m, &[]).map_err(|e| format!("diff with the saved analysis of the base: {e}"))?;
            }
            4 => {
                ctx.class("saved analysis as change");
                save("change")?;
                gone("change", &base);
                let o = diff(&["base", "change.json"])?;
                check_table(&o.stdout, &m, &[]).map_err(|e| format!("diff with the saved analysis of the change: {e}"))?;
            }
            5 => {
                ctx.class("saved analyses");
                save("base")?;
                save("change")?;
                std::fs::rename(d.join("change.json"), d.join("other.json")).expect("harness: rename");
                std::fs::rename(d.join("base.json"), d.join("v1.2 base.json")).expect("harness: rename");
                if case.old.0 != case.old.1 {
                    tools::write(&d.join("other.mm_profdata"), b"not a profile");
                    std::fs::copy(d.join("change.mm_profdata"), d.join("v1.2 base.mm_profdata")).expect("harness: copy");
                }
                let o = diff(&["v1.2 base.json", "other.json"])?;
                check_table(&o.stdout, &m, &[]).map_err(|e| format!("diff of saved analyses: {e}"))?;
            }
            6 => {
                ctx.class("swapped");
                diff(&["--json", "base", "change"])?;
                diff(&["--json", "change", "base"])?;
                check_json(&read("change.json")?, &m).map_err(|e| format!("diff --json: {e}"))?;
                check_json(&read("base.json")?, &model(&change, &base)).map_err(|e| format!("swapped diff --json: {e}"))?;
            }
            _ => {
                ctx.class("with itself");
                let o = diff(&["base", "base"])?;
                let m = model(&base, &base);
                ensure!(m.rows.values().all(|(d, ..)| *d == Diff::default()), "harness: self diff model");
                check_table(&o.stdout, &m, &[]).map_err(|e| format!("diff of a profile with itself: {e}"))?;
            }
        }
        let up = m.rows.values().any(|(d, ..)| d.self_time > 0);
        let down = m.rows.values().any(|(d, ..)| d.self_time < 0);
        let (a, b) = (base.analysis(), change.analysis());
        let single = a.keys().any(|l| !b.contains_key(l)) || b.keys().any(|l| !a.contains_key(l));
        ctx.class_if(single, "item in one profile only");
        ctx.class_if(m.artifacts.values().any(|v| *v < 0), "artifact got smaller");
        ctx.count("items", m.rows.len() as u64);
        ctx.nontrivial_if(up && down || single);
        Ok(())
    }
}
