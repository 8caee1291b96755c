//! C11: the analysis.
use crate::codec::{Layout, Meta};
use crate::driver::*;
use crate::load::load;
use crate::model::{Ev, Gen, Hist, QueryModel, Run};
use analyzeme::AnalysisResults;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub hist: Hist,
    pub meta: Meta,
    pub layout: Layout,
    pub via: u8,
    /// which thread's next event comes next in the second file
    pub merge: Vec<u8>,
}

pub fn remerge(events: &[Ev], picks: &[u8]) -> Vec<Ev> {
    let mut per: Vec<(u32, std::collections::VecDeque<Ev>)> = vec![];
    let mut at: BTreeMap<u32, usize> = BTreeMap::new();
    for e in events {
        let i = *at.entry(e.tid).or_insert_with(|| {
            per.push((e.tid, Default::default()));
            per.len() - 1
        });
        per[i].1.push_back(e.clone());
    }
    let mut out = vec![];
    let mut k = 0;
    while !per.is_empty() {
        let p = if picks.is_empty() { 0 } else { picks[k % picks.len()] as usize };
        k += 1;
        let i = p % per.len();
        out.push(per[i].1.pop_front().unwrap());
        if per[i].1.is_empty() {
            per.swap_remove(i);
        }
    }
    out
}

fn ns(d: std::time::Duration) -> u64 {
    d.as_nanos() as u64
}

pub fn normalise(r: &AnalysisResults) -> Result<(BTreeMap<String, QueryModel>, BTreeMap<String, u64>, u64), String> {
    let mut q = BTreeMap::new();
    for d in &r.query_data {
        let m = QueryModel {
            self_time: ns(d.self_time),
            time: ns(d.time),
            misses: d.number_of_cache_misses,
            hits: d.number_of_cache_hits,
            invocations: d.invocation_count,
            blocked: ns(d.blocked_time),
            load: ns(d.incremental_load_time),
            hashing: ns(d.incremental_hashing_time),
        };
        ensure!(q.insert(d.label.clone(), m).is_none(), "label {:?} appears twice", d.label);
    }
    let mut a = BTreeMap::new();
    for s in &r.artifact_sizes {
        ensure!(a.insert(s.label.clone(), s.value).is_none(), "artifact {:?} appears twice", s.label);
    }
    Ok((q, a, ns(r.total_time)))
}

fn compare(r: AnalysisResults, run: &Run, what: &str) -> Result<(), String> {
    let (q, a, total) = normalise(&r).map_err(|e| format!("{what}: {e}"))?;
    let want = run.analysis();
    for (l, w) in &want {
        match q.get(l) {
            None => return Err(format!("{what}: no data for label {l:?}")),
            Some(g) => ensure_eq!(g, w, "{what}: data of label {l:?}"),
        }
    }
    for l in q.keys() {
        ensure!(want.contains_key(l), "{what}: unexpected label {l:?}");
    }
    ensure_eq!(a, run.artifacts(), "{what}: artifact sizes");
    ensure_eq!(total, run.total_time(), "{what}: total time");
    // Conservation, stated on its own.
    let top: u64 = run.nodes.iter().filter(|n| n.parent.is_none()).map(|n| n.end - n.start).sum();
    let selfs: u64 = q.values().map(|m| m.self_time).sum();
    ensure_eq!(selfs, top, "{what}: sum of self times against top-level time");
    Ok(())
}

pub fn gen(t: Tier) -> Gen {
    Gen { max_ops: if t == Tier::Quick { 45 } else { 120 }, max_texts: 5, max_args: 2, max_threads: 4, ..Gen::default() }
}

pub struct P;
impl Prop for P {
    type Case = Case;
    const ID: &'static str = "C11";
    const RULE: &'static str = "Histories of open/close/advance/instant/integer operations on 1-4 threads (clocks may stand still, so boundaries coincide; all known and some unknown kinds; repeated labels, recursion), loaded as v9, v8 or through the library's builder, and once more with the threads' events merged in another order. Non-trivial: nesting of depth 2 or more and at least two kinds.";
    const ASSUMPTIONS: &'static [&'static str] = &["intervals of one thread are well nested and in order of their ends, as guards on one thread record them"];
    fn cases(t: Tier) -> u32 {
        t.pick(240_000, 10_000_000)
    }
    fn strategy(t: Tier) -> BoxedStrategy<Case> {
        (
            crate::model::hist(gen(t)),
            crate::model::meta(),
            crate::model::layout(),
            any::<u8>(),
            proptest::collection::vec(any::<u8>(), 0..6),
        )
            .prop_map(|(hist, meta, layout, via, merge)| Case { hist, meta, layout, via, merge })
            .boxed()
    }
    fn fixed(_t: Tier) -> Vec<Case> {
        (0..4)
            .flat_map(|via| std::iter::once(crate::model::long_hist(18_000)).chain(crate::model::big_hists()).map(move |h| (via, h)))
            .chain([(0, crate::model::count_hist(66_000))])
            .map(|(via, hist)| Case { hist, meta: Meta { start_ns: 1_700_000_000_000_000_001, pid: 7, cmd: "x".into() }, layout: Layout { shapes: vec![0, 5, 2, 7], ..Layout::default() }, via, merge: vec![0, 0, 0, 1, 2] })
            .collect()
    }
    fn check(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
        let run = case.hist.run();
        let d = load(&case.meta, &run.events, &case.layout, case.via)?;
        compare(d.perform_analysis(), &run, "analysis")?;
        let other = remerge(&run.events, &case.merge);
        if other != run.events {
            ctx.class("merged in another order");
            let d = load(&case.meta, &other, &case.layout, 0)?;
            compare(d.perform_analysis(), &run, "analysis with the threads merged differently")?;
        }
        let kinds: std::collections::HashSet<&str> = run.nodes.iter().map(|n| run.kind(n)).collect();
        let deep = run.max_depth() >= 2;
        ctx.class_if(deep, "nested");
        ctx.class_if(run.max_depth() >= 4, "depth 4 or more");
        ctx.class_if(run.spans().len() >= 2, "several threads");
        ctx.class_if(run.nodes.iter().any(|n| n.parent.is_some_and(|p| ["IncrementalResultHashing", "IncrementalLoadResult", "QueryBlocked"].contains(&run.kind(&run.nodes[p])))), "child of a special kind");
        ctx.class_if(run.nodes.iter().any(|n| n.start == n.end), "zero-length interval");
        ctx.count("intervals", run.nodes.len() as u64);
        ctx.nontrivial_if(deep && kinds.len() >= 2);
        Ok(())
    }
}
