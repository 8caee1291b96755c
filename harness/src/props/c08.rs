//! C08: event iteration.
use crate::codec::Layout;
use crate::driver::*;
use crate::load::{load, payload, same_event, start_of};
use crate::model::{Ev, Gen, Hist};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum It {
    Next,
    Back,
    Nth(u32),
    NthBack(u32),
    Len,
    ByRefTake(u32),
    ByRefRevTake(u32),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum End {
    Collect,
    RevCollect,
    Count,
    Last,
    Exhaust,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub hist: Hist,
    pub layout: Layout,
    pub via: u8,
    pub calls: Vec<It>,
    pub end: End,
}

/// One call sequence against the model (indices lo..hi are left).
fn drive<T>(
    mut it: impl DoubleEndedIterator<Item = T> + ExactSizeIterator,
    n: usize,
    calls: &[It],
    end: &End,
    check: &dyn Fn(&T, usize) -> Result<(), String>,
) -> Result<(), String> {
    let (mut lo, mut hi) = (0usize, n);
    let expect = |got: Option<T>, want: Option<usize>, what: &str| -> Result<(), String> {
        match (got, want) {
            (None, None) => Ok(()),
            (Some(g), Some(w)) => check(&g, w).map_err(|e| format!("{what}: {e}")),
            (g, w) => Err(format!("{what}: got {}, expected index {w:?}", if g.is_some() { "an event" } else { "nothing" })),
        }
    };
    for c in calls {
        match *c {
            It::Next => {
                let w = (lo < hi).then(|| lo);
                lo += w.is_some() as usize;
                expect(it.next(), w, "next")?;
            }
            It::Back => {
                let w = (lo < hi).then(|| hi - 1);
                hi -= w.is_some() as usize;
                expect(it.next_back(), w, "next_back")?;
            }
            It::Nth(k) => {
                let k = k as usize;
                let w = (k < hi - lo).then(|| lo + k);
                lo = (lo + k + 1).min(hi);
                expect(it.nth(k), w, "nth")?;
            }
            It::NthBack(k) => {
                let k = k as usize;
                let w = (k < hi - lo).then(|| hi - 1 - k);
                hi = hi.saturating_sub(k + 1).max(lo);
                expect(it.nth_back(k), w, "nth_back")?;
            }
            It::Len => {}
            It::ByRefTake(k) => {
                let k = (k as usize).min(hi - lo);
                let v: Vec<T> = it.by_ref().take(k).collect();
                ensure_eq!(v.len(), k, "take");
                for g in &v {
                    check(g, lo)?;
                    lo += 1;
                }
            }
            It::ByRefRevTake(k) => {
                let k = (k as usize).min(hi - lo);
                let v: Vec<T> = it.by_ref().rev().take(k).collect();
                ensure_eq!(v.len(), k, "rev take");
                for g in &v {
                    hi -= 1;
                    check(g, hi)?;
                }
            }
        }
        ensure_eq!(it.len(), hi - lo, "len after {c:?}");
        ensure_eq!(it.size_hint(), (hi - lo, Some(hi - lo)), "size_hint after {c:?}");
    }
    match end {
        End::Collect => {
            let v: Vec<T> = it.collect();
            ensure_eq!(v.len(), hi - lo, "collect");
            for (k, g) in v.iter().enumerate() {
                check(g, lo + k)?;
            }
        }
        End::RevCollect => {
            let v: Vec<T> = it.rev().collect();
            ensure_eq!(v.len(), hi - lo, "rev collect");
            for (k, g) in v.iter().enumerate() {
                check(g, hi - 1 - k)?;
            }
        }
        End::Count => ensure_eq!(it.count(), hi - lo, "count"),
        End::Last => expect(it.last(), (lo < hi).then(|| hi - 1), "last")?,
        End::Exhaust => {
            while lo < hi {
                expect(it.next(), Some(lo), "next")?;
                lo += 1;
            }
            for _ in 0..3 {
                ensure!(it.next().is_none(), "next after the end gives an event");
                ensure!(it.next_back().is_none(), "next_back after the end gives an event");
                ensure!(it.nth(2).is_none(), "nth after the end gives an event");
                ensure_eq!(it.len(), 0, "len after the end");
            }
        }
    }
    Ok(())
}

pub struct P;
impl Prop for P {
    type Case = Case;
    const ID: &'static str = "C08";
    const RULE: &'static str = "Profiles (0-60 events of all types, v8, v9, library builder) and sequences of iterator calls from both ends (next, next_back, nth, nth_back, len, take, rev, collect, count, last), on the lightweight and the full iterator, against two indices. Non-trivial: at least two events and calls from both ends.";
    fn cases(t: Tier) -> u32 {
        t.pick(150_000, 6_000_000)
    }
    fn strategy(_t: Tier) -> BoxedStrategy<Case> {
        let k = || prop_oneof![16 => 0u32..4, 4 => 0u32..80, 1 => 0u32..10_000];
        let it = prop_oneof![
            4 => Just(It::Next), 4 => Just(It::Back), 2 => k().prop_map(It::Nth), 2 => k().prop_map(It::NthBack),
            1 => Just(It::Len), 1 => k().prop_map(It::ByRefTake), 1 => k().prop_map(It::ByRefRevTake),
        ];
        (
            crate::model::hist(Gen { max_ops: 50, max_args: 2, ..Gen::default() }),
            crate::model::layout(),
            any::<u8>(),
            proptest::collection::vec(it, 0..14),
            prop_oneof![Just(End::Collect), Just(End::RevCollect), Just(End::Count), Just(End::Last), Just(End::Exhaust)],
        )
            .prop_map(|(hist, layout, via, calls, end)| Case { hist, layout, via, calls, end })
            .boxed()
    }
    fn fixed(_t: Tier) -> Vec<Case> {
        let mut v = vec![];
        for via in 0..4 {
            for end in [End::Collect, End::RevCollect, End::Count, End::Last, End::Exhaust] {
                v.push(Case {
                    hist: Hist { threads: vec![(0, 0)], texts: vec!["x".into()], ops: vec![], strict: false, repeat: 1 },
                    layout: Layout::default(),
                    via,
                    calls: vec![It::Len, It::Back, It::Next, It::NthBack(1), It::Nth(0)],
                    end,
                });
            }
        }
        // more than 2^16 events
        for (via, calls) in [
            (1, vec![It::Len, It::Nth(65_530), It::ByRefTake(20), It::NthBack(3), It::ByRefRevTake(30)]),
            // (and more than 2^20)
            (0, vec![It::NthBack(5), It::ByRefRevTake(10), It::Next, It::Nth(8190), It::Next, It::Next]),
            (3, vec![It::Back, It::Nth(65_535)]),
            (2, vec![It::NthBack(70_000), It::Nth(65_536)]),
        ] {
            v.push(Case { hist: crate::model::long_hist(if via == 0 { 265_000 } else { 20_000 }), layout: Layout::default(), via, calls, end: End::Collect });
        }
        v
    }
    fn check(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
        let run = case.hist.run();
        let ev: &[Ev] = &run.events;
        let meta = Default::default();
        let data = load(&meta, ev, &case.layout, case.via)?;
        let start = start_of(&meta, case.via);
        ensure_eq!(data.num_events(), ev.len(), "num_events");
        ensure_eq!(data.iter().len(), ev.len(), "iter().len()");
        ensure_eq!(data.iter_full().len(), ev.len(), "iter_full().len()");
        let light = |g: &analyzeme::LightweightEvent, i: usize| -> Result<(), String> {
            ensure_eq!(g.event_index, i, "event_index");
            ensure_eq!(g.thread_id, ev[i].tid, "thread of lightweight event {i}");
            ensure_eq!(g.payload, payload(&ev[i].payload, start), "payload of lightweight event {i}");
            let f = data.to_full_event(g);
            same_event(&f, &ev[i], start).map_err(|e| format!("to_full_event of {i}: {e}"))?;
            ensure!(data.to_full_event(g) == f, "decoding event {i} twice differs");
            Ok(())
        };
        let full = |g: &analyzeme::Event<'_>, i: usize| same_event(g, &ev[i], start).map_err(|e| format!("full event {i}: {e}"));
        drive(data.iter(), ev.len(), &case.calls, &case.end, &light).map_err(|e| format!("iter(): {e}"))?;
        drive(data.iter_full(), ev.len(), &case.calls, &case.end, &full).map_err(|e| format!("iter_full(): {e}"))?;
        let f = case.calls.iter().any(|c| matches!(c, It::Next | It::Nth(_) | It::ByRefTake(_)));
        let b = case.calls.iter().any(|c| matches!(c, It::Back | It::NthBack(_) | It::ByRefRevTake(_)));
        ctx.class_if(f && b, "both ends");
        ctx.class_if(ev.is_empty(), "no events");
        ctx.count("events", ev.len() as u64);
        ctx.nontrivial_if(f && b && ev.len() > 1);
        Ok(())
    }
}
