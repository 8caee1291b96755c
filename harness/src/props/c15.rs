//! C15: the summary report.
use super::c11::normalise;
use crate::codec::{self, Layout, Meta};
use crate::driver::*;
use crate::model::{Gen, Hist, Op, Run};
use crate::tools::{self, Piece};
use analyzeme::AnalysisResults;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::time::Duration;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Filter {
    None,
    Fixed(f64),
    /// the share of some item, shifted by a multiple of a small amount
    Near(u16, i8, f64),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub hist: Hist,
    pub meta: Meta,
    pub layout: Layout,
    pub old: bool,
    pub prefix: bool,
    pub filter: Filter,
}

fn d(n: u64) -> Duration {
    Duration::from_nanos(n)
}

/// Is the share exactly representable, so that no rounding can blur a comparison?
fn exact_share(own: u64, total: u64) -> bool {
    fn gcd(a: u64, b: u64) -> u64 {
        if b == 0 {
            a
        } else {
            gcd(b, a % b)
        }
    }
    let q = total / gcd(own.max(1), total).max(1);
    own == 0 || (q.is_power_of_two() && q <= 1 << 20 && own < 1 << 50 && total < 1 << 50)
}

fn check_report(out: &str, run: &Run, p: f64, ctx: &mut Ctx) -> Result<(), String> {
    let model = run.analysis();
    let total = run.total_time();
    let ps = tools::pieces(out);
    let (mut tables, mut lines) = (vec![], vec![]);
    for (i, p) in ps.iter().enumerate() {
        match p {
            Piece::Table(t) => tables.push((i, t)),
            Piece::Line(l) => lines.push(l.clone()),
        }
    }
    ensure_eq!(tables.len(), 2, "number of tables in\n{out}");
    let rows = tables[0].1;
    let mut columns = vec!["Item", "Self time", "% of total time", "Time", "Item count"];
    for (name, any) in [
        ("Cache hits", model.values().any(|q| q.hits > 0)),
        ("Blocked time", model.values().any(|q| q.blocked > 0)),
        ("Incremental load time", model.values().any(|q| q.load > 0)),
        ("Incremental result hashing time", model.values().any(|q| q.hashing > 0)),
    ] {
        if any {
            columns.push(name);
        }
    }
    ensure_eq!(rows[0], columns, "columns");
    let col = |n: &str| columns.iter().position(|c| *c == n);
    let mut seen: BTreeMap<String, ()> = BTreeMap::new();
    let mut last = u64::MAX;
    let mut kept = 0u64;
    for r in &rows[1..] {
        ensure_eq!(r.len(), columns.len(), "cells in row {r:?}");
        let Some(q) = model.get(&r[0]) else { return Err(format!("row for {:?}, which is no item", r[0])) };
        ensure!(seen.insert(r[0].clone(), ()).is_none(), "second row for {:?}", r[0]);
        let cell = |name: &str, want: String| -> Result<(), String> {
            if let Some(c) = col(name) {
                ensure_eq!(r[c], want, "column {name:?} of item {:?}", r[0]);
            }
            Ok(())
        };
        cell("Self time", format!("{:.2?}", d(q.self_time)))?;
        cell("Time", format!("{:.2?}", d(q.time)))?;
        cell("Item count", q.invocations.to_string())?;
        cell("Cache hits", q.hits.to_string())?;
        cell("Blocked time", format!("{:.2?}", d(q.blocked)))?;
        cell("Incremental load time", format!("{:.2?}", d(q.load)))?;
        cell("Incremental result hashing time", format!("{:.2?}", d(q.hashing)))?;
        if total > 0 {
            let got: f64 = r[2].parse().map_err(|_| format!("percentage {:?} of item {:?}", r[2], r[0]))?;
            let want = q.self_time as f64 / total as f64 * 100.0;
            ensure!((got - want).abs() <= 0.0006 + want * 1e-12, "percentage of item {:?}: got {got}, expected {want}", r[0]);
        }
        ensure!(q.self_time <= last, "rows are not ordered by descending self time: {rows:?}");
        last = q.self_time;
        kept += q.self_time;
    }
    let mut left_out = 0;
    for (l, q) in &model {
        let share = q.self_time as f64 / total as f64 * 100.0;
        let shown = seen.contains_key(l);
        if total == 0 || p == 0.0 {
            ensure!(shown, "no row for item {l:?}");
            continue;
        }
        if exact_share(q.self_time, total) || (share - p).abs() > 1e-9 {
            ensure_eq!(shown, share >= p, "item {l:?} with {share}% shown when filtering at {p}%");
            ctx.class_if(share == p, "share equal to the filter");
        }
        left_out += usize::from(!shown);
    }
    ctx.class_if(left_out > 0 && seen.len() > 0, "some items left out");
    ensure!(!lines.is_empty() && lines[0] == format!("Total cpu time: {:?}", d(total)), "total time: got {lines:?}, expected {:?}", d(total));
    if p != 0.0 {
        ensure_eq!(lines.len(), 2, "lines when filtering ({lines:?})");
        let got: Option<f64> = lines[1].strip_prefix("Filtered results account for ").and_then(|s| s.strip_suffix("% of total time.")).and_then(|s| s.parse().ok());
        let want = kept as f64 / total as f64 * 100.0;
        if total > 0 {
            ensure!(got.is_some_and(|g| (g - want).abs() <= 0.0006 + want * 1e-12), "share of the rows shown: got {:?}, expected {want}", lines[1]);
        }
    } else {
        ensure_eq!(lines.len(), 1, "lines without a filter ({lines:?})");
    }
    let art = tables[1].1;
    let want = run.artifacts();
    ensure_eq!(art[0], ["Item", "Artifact Size"], "columns of the artifact table");
    ensure_eq!(art.len() - 1, want.len(), "rows of the artifact table");
    for r in &art[1..] {
        let Some(v) = want.get(&r[0]) else { return Err(format!("artifact row {r:?}")) };
        ensure_eq!(r[1], format!("{v} bytes"), "size of artifact {:?}", r[0]);
    }
    ensure_eq!(art[1..].iter().map(|r| &r[0]).collect::<std::collections::BTreeSet<_>>().len(), want.len(), "different artifact rows");
    Ok(())
}

/// Histories in which the shares of all items are multiples of 1/256.
fn dyadic() -> BoxedStrategy<Hist> {
    (proptest::collection::vec(1u64..60, 1..7), prop_oneof![Just(1u64), Just(1000), Just(77)], any::<[u8; 8]>())
        .prop_map(|(mut parts, unit, kinds)| {
            let mut sum = 0;
            parts.retain(|p| {
                let ok = sum + p <= 256;
                if ok {
                    sum += p;
                }
                ok
            });
            if sum < 256 {
                parts.push(256 - sum);
            }
            let mut ops = vec![];
            for (i, p) in parts.iter().enumerate() {
                ops.push((0, Op::Open { kind: kinds[i % 8] % 5, label: i as u8, args: vec![] }));
                ops.push((0, Op::Adv(p * unit)));
                ops.push((0, Op::Close));
            }
            Hist { threads: vec![(3, 5)], texts: (0..parts.len()).map(|i| format!("item{i}")).collect(), ops, strict: false, repeat: 1 }
        })
        .boxed()
}

pub fn hists(max_ops: usize) -> BoxedStrategy<Hist> {
    let mk = |max_ops, max_texts| {
        crate::model::hist(Gen { texts: crate::text::table_text(), max_texts, max_ops, max_args: 1, max_threads: 3, ..Gen::default() })
    };
    let any = crate::model::hist(Gen { texts: crate::text::grammar_text(), max_texts: 5, max_ops: 30, max_args: 1, max_threads: 3, ..Gen::default() });
    prop_oneof![3 => mk(30, 5), 2 => mk(8, 3), 1 => mk(max_ops, 8), 1 => mk(max_ops * 3, 60), 1 => any].boxed()
}

/// Can the tables show these items so that they can be read back?
pub fn tabular(r: &Run) -> bool {
    r.analysis().keys().chain(r.artifacts().keys()).all(|l| crate::text::table_safe(l))
}

pub struct P;
impl Prop for P {
    type Case = Case;
    const ID: &'static str = "C15";
    const RULE: &'static str = "Generated recordings (all kinds, threads, nesting, artifacts; also recordings with only few kinds, so that every combination of optional columns occurs; recordings whose shares are exact binary fractions), reported by the built summarize with and without --percent-above at, just below and just above an item's share, and with --json; tables, total, share and JSON are compared with the generated tree. Non-trivial: at least three items, and an optional column or a filter.";
    const ASSUMPTIONS: &'static [&'static str] = &[
        "with line breaks, tabs or outer blanks in labels only the JSON is compared (the table has no quoting)",
        "an item whose share differs from the filter by less than 1e-9 percent may be shown or not, unless the share is an exact binary fraction",
        "percentages are not looked at when the total time is zero",
    ];
    fn cases(t: Tier) -> u32 {
        t.pick(30_000, 1_200_000)
    }
    fn strategy(_t: Tier) -> BoxedStrategy<Case> {
        let near = |d: f64| (any::<u16>(), -1i8..=1).prop_map(move |(a, b)| Filter::Near(a, b, d));
        let filter = prop_oneof![
            4 => Just(Filter::None),
            1 => prop_oneof![Just(0.0), Just(100.0), Just(1.0), Just(50.0), Just(0.001), 0.0..100.0].prop_map(Filter::Fixed),
            2 => near(1e-6),
            1 => near(0.5),
            1 => any::<u16>().prop_map(|a| Filter::Near(a, 0, 0.0)),
        ];
        (
            prop_oneof![4 => hists(60), 1 => dyadic()],
            crate::model::meta(),
            crate::model::layout(),
            any::<bool>(),
            any::<bool>(),
            filter,
        )
            .prop_map(|(hist, meta, layout, old, prefix, filter)| Case { hist, meta, layout, old, prefix, filter })
            .boxed()
    }
    fn fixed(_t: Tier) -> Vec<Case> {
        crate::model::big_hists()
            .into_iter()
            .chain([crate::model::long_hist(12_000), crate::model::count_hist(66_000)])
            .enumerate()
            .map(|(i, hist)| Case { hist, meta: Meta::default(), layout: Layout { shapes: vec![0, 5, 2, 7], ..Layout::default() }, old: i == 1, prefix: true, filter: Filter::None })
            .collect()
    }
    fn check(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
        let dir = ctx.dir();
        let run = case.hist.run();
        let model = run.analysis();
        let total = run.total_time();
        let stem = &tools::place(&dir.0, case.meta.pid / 24, "prof")[..];
        let file = format!("{stem}.mm_profdata");
        tools::write(&dir.0.join(&file), &codec::encode_file(&case.meta, &run.events, &case.layout, if case.old { 8 } else { 9 }));
        let name = if case.prefix { stem } else { &file };
        let p = match case.filter {
            Filter::None => None,
            Filter::Fixed(p) => Some(p),
            Filter::Near(i, n, by) => {
                let shares: Vec<f64> = model.values().map(|q| q.self_time as f64 / total.max(1) as f64 * 100.0).collect();
                let base = if shares.is_empty() { 10.0 } else { shares[i as usize % shares.len()] };
                Some((base + n as f64 * by).clamp(0.0, 100.0))
            }
        };
        let mut args = tools::args(["summarize", name]);
        if let Some(p) = p {
            args.push("-p".into());
            args.push(format!("{p}").into());
        }
        let out = tools::run("summarize", &dir.0, &args).success(&format!("summarize {args:?}"))?;
        if tabular(&run) {
            check_report(&out.stdout, &run, p.unwrap_or(0.0), ctx).map_err(|e| format!("summarize {args:?}: {e}"))?;
        } else {
            ctx.class("JSON only: labels that a table cannot show");
        }

        // The filter is for the table.
        let mut j = tools::args(["summarize", "--json", name]);
        if let (Some(p), true) = (p, case.old) {
            j.push("-p".into());
            j.push(format!("{p}").into());
            ctx.class("filter with JSON");
        }
        if case.meta.pid % 3 == 0 {
            tools::stale(&dir.0.join(format!("{stem}.json")));
        }
        tools::run("summarize", &dir.0, &j).success("summarize --json")?;
        let b = std::fs::read(dir.0.join(format!("{stem}.json"))).map_err(|e| format!("no JSON analysis: {e}"))?;
        let r: AnalysisResults = serde_json::from_slice(&b).map_err(|e| format!("the JSON analysis does not read back: {e}"))?;
        let (q, a, t) = normalise(&r)?;
        ensure_eq!(q, model, "items in the JSON analysis");
        ensure_eq!(a, run.artifacts(), "artifacts in the JSON analysis");
        ensure_eq!(t, total, "total time in the JSON analysis");

        if case.meta.pid % 8 == 0 {
            // No share can be above 100 or below 0.
            for bad in ["100.1", "-0.5", "-50", "-100.5", "1e9"] {
                let out = tools::run("summarize", &dir.0, &tools::args(["summarize", name, &format!("--percent-above={bad}")]));
                ensure!(out.code.is_some_and(|c| c != 0), "summarize --percent-above={bad}: {}", out.describe());
                ensure!(out.stdout.is_empty(), "summarize --percent-above={bad} prints a report: {}", out.describe());
            }
            ctx.class("impossible filter");
        }

        let opt = [
            model.values().any(|q| q.hits > 0),
            model.values().any(|q| q.blocked > 0),
            model.values().any(|q| q.load > 0),
            model.values().any(|q| q.hashing > 0),
        ];
        ctx.class(match opt.iter().filter(|x| **x).count() {
            0 => "no optional column",
            1 => "one optional column",
            2 => "two optional columns",
            3 => "three optional columns",
            _ => "four optional columns",
        });
        ctx.class_if(stem != "prof", "profile in another directory");
        ctx.class_if(p.is_some(), "filter");
        ctx.class_if(!run.artifacts().is_empty(), "artifacts");
        ctx.count("items", model.len() as u64);
        ctx.nontrivial_if(model.len() >= 3 && (opt.contains(&true) || p.is_some()));
        Ok(())
    }
}
