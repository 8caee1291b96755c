//! C14: collapsing threads.
use super::c13::{read_trace, segments};
use crate::codec::{self, Layout, Meta};
use crate::driver::*;
use crate::model::{Ev, Payload};
use crate::tools;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Thread {
    pub tid: u32,
    pub start: u8,
    /// (gap before, length, an instant instead of an interval)
    pub items: Vec<(u8, u8, bool)>,
    /// a last interval around everything
    pub outer: bool,
    pub integer: bool,
    /// file order of the thread's events (each taken from a later place)
    #[serde(default)]
    pub order: Vec<u8>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub profiles: Vec<Vec<Thread>>,
    /// nanoseconds per unit of time
    pub scale: u64,
    pub start_ns: u64,
    pub merge: Vec<u8>,
    /// minimum duration in units
    pub min: Option<u8>,
}

struct Built {
    events: Vec<Ev>,
    /// per thread: first and last time stamp
    spans: BTreeMap<u32, (u64, u64)>,
    instant_only: bool,
}

fn build(threads: &[Thread], scale: u64, merge: &[u8]) -> Built {
    let mut events = vec![];
    let mut spans: BTreeMap<u32, (u64, u64)> = BTreeMap::new();
    let mut instant_only = false;
    for t in threads {
        let mut now = t.start as u64 * scale;
        let first = now;
        let ev = |payload, n: usize| Ev {
            kind: "Query".into(),
            label: format!("{}/{n}", t.tid),
            args: vec![],
            tid: t.tid,
            payload,
        };
        let mut mine = vec![];
        for (n, (gap, len, instant)) in t.items.iter().enumerate() {
            now += *gap as u64 * scale;
            if *instant {
                mine.push(ev(Payload::Instant(now), n));
            } else {
                let s = now;
                now += *len as u64 * scale;
                mine.push(ev(Payload::Interval(s, now), n));
            }
        }
        if t.outer {
            mine.push(ev(Payload::Interval(first, now), 99));
        }
        for e in &mine {
            let (a, b) = match e.payload {
                Payload::Interval(a, b) => (a, b),
                Payload::Instant(a) => (a, a),
                Payload::Integer(_) => unreachable!(),
            };
            let s = spans.entry(t.tid).or_insert((a, b));
            s.0 = s.0.min(a);
            s.1 = s.1.max(b);
        }
        instant_only |= !mine.is_empty() && mine.iter().all(|e| matches!(e.payload, Payload::Instant(_)));
        if t.integer {
            mine.push(ev(Payload::Integer(7), 100));
        }
        for i in 0..mine.len() {
            if let Some(k) = t.order.get(i) {
                let n = mine.len();
                mine.swap(i, i + *k as usize % (n - i));
            }
        }
        events.extend(mine);
    }
    Built { events: super::c11::remerge(&events, merge), spans, instant_only }
}

fn strip(e: &Value) -> String {
    let mut e = e.clone();
    e.as_object_mut().map(|o| o.remove("tid"));
    e.to_string()
}

pub struct P;
impl Prop for P {
    type Case = Case;
    const ID: &'static str = "C14";
    const RULE: &'static str = "Profiles of up to 12 (rarely 60) threads with small integer time spans (many touching, nested, equal and disjoint spans; instants extending a span; threads without intervals; file order interleaved, in some threads also the order of the events of one thread; optional minimum duration), converted with and without --collapse-threads. Non-trivial: at least two threads share a track and at least two tracks are used.";
    const ASSUMPTIONS: &'static [&'static str] = &["tracks of threads which have no visible interval leave a gap in the visible numbers"];
    fn cases(t: Tier) -> u32 {
        t.pick(40_000, 1_500_000)
    }
    fn strategy(_t: Tier) -> BoxedStrategy<Case> {
        let thread = (
            prop_oneof![3 => 0u32..14, 1 => any::<u32>(), 1 => (0u32..64).prop_map(|i| 1000 + i)],
            prop_oneof![1 => Just(0u8), 3 => 0u8..16, 1 => any::<u8>()],
            prop_oneof![
                4 => proptest::collection::vec((0u8..3, 0u8..5, proptest::bool::weighted(0.2)), 1..4),
                1 => proptest::collection::vec((0u8..3, 0u8..5, proptest::bool::weighted(0.9)), 0..4),
            ],
            any::<bool>(),
            proptest::bool::weighted(0.2),
            prop_oneof![3 => Just(vec![]).boxed(), 1 => proptest::collection::vec(0u8..5, 0..5).boxed()],
        )
            .prop_map(|(tid, start, items, outer, integer, order)| Thread { tid, start, items, outer: outer, integer, order });
        let threads = prop_oneof![30 => proptest::collection::vec(thread.clone(), 0..=12), 1 => proptest::collection::vec(thread, 12..=60)].prop_map(|mut v| {
            let mut seen = BTreeSet::new();
            v.retain(|t| seen.insert(t.tid));
            v
        });
        (
            prop_oneof![4 => proptest::collection::vec(threads.clone(), 1..=1), 1 => proptest::collection::vec(threads, 2..=3)],
            proptest::sample::select(&[1u64, 100, 1000, 1_000_000, 1_000_000_000][..]),
            prop_oneof![Just(0u64), 0u64..2_000_000_000_000_000_000],
            proptest::collection::vec(any::<u8>(), 0..6),
            proptest::option::weighted(0.2, 0u8..4),
        )
            .prop_map(|(profiles, scale, start_ns, merge, min)| Case { profiles, scale, start_ns, merge, min })
            .boxed()
    }
    fn fixed(_t: Tier) -> Vec<Case> {
        // more than 256 threads: all at the same time, one after the other, in groups
        let t = |tid: u32, start: u8, len: u8| Thread { tid, start, items: vec![(0, len, false), (1, 1, true), (0, 1, false)], outer: false, integer: false, order: vec![] };
        let one = |threads: Vec<Thread>| Case { profiles: vec![threads], scale: 1000, start_ns: 5, merge: vec![1, 3, 0, 2], min: None };
        vec![
            one((0..600).map(|i| t(i * 2, 3, 9)).collect()),
            one((0..600).map(|i| t(i * 3, (i % 250) as u8, 0)).collect()),
            one((0..600).map(|i| t(5000 - i, (i * 37 % 256) as u8, (i % 7) as u8)).collect()),
            // more than 16 bits
            one((0..66_000).map(|i| Thread { items: vec![(0, 9, false)], ..t(i * 5, 3, 9) }).collect()),
        ]
    }
    fn check(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
        let dir = ctx.dir();
        let mut built = vec![];
        let mut args: Vec<std::ffi::OsString> = vec![];
        for (i, p) in case.profiles.iter().enumerate() {
            let b = build(p, case.scale, &case.merge);
            let meta = Meta { start_ns: case.start_ns, pid: i as u32, cmd: "x".into() };
            let name = format!("p{i}.mm_profdata");
            tools::write(&dir.0.join(&name), &codec::encode_file(&meta, &b.events, &Layout::default(), 9));
            args.push(name.into());
            built.push((b, meta));
        }
        if let Some(m) = case.min {
            args.push("--minimum-duration".into());
            args.push((m as u64 * case.scale / 1000).to_string().into());
        }
        tools::run("crox", &dir.0, &args).success("crox")?;
        let plain = segments(&read_trace(&dir.0)?)?;
        args.push("--collapse-threads".into());
        tools::run("crox", &dir.0, &args).success("crox --collapse-threads")?;
        let coll = segments(&read_trace(&dir.0)?)?;
        ensure_eq!(plain.len(), built.len(), "profiles in the plain trace");
        ensure_eq!(coll.len(), built.len(), "profiles in the collapsed trace");
        for (i, (b, meta)) in built.iter().enumerate() {
            let tid_of = |e: &Value| -> Result<(u32, u64), String> {
                let name = e["name"].as_str().unwrap_or("");
                let t = name.split('/').next().and_then(|s| s.parse().ok()).ok_or_else(|| format!("unexpected event {e}"))?;
                Ok((t, e["tid"].as_u64().ok_or_else(|| format!("no thread id in {e}"))?))
            };
            for e in &plain[i].0 {
                let (t, got) = tid_of(e)?;
                ensure_eq!(got, t as u64, "profile {i}: thread id without the option");
            }
            // Nothing else changes.
            let mut a: Vec<String> = plain[i].0.iter().map(strip).collect();
            let mut c: Vec<String> = coll[i].0.iter().map(strip).collect();
            a.sort();
            c.sort();
            ensure_eq!(c, a, "profile {i}: events with collapsed threads, apart from the thread id");
            ensure_eq!(coll[i].1, plain[i].1, "profile {i}: metadata events with collapsed threads");
            if case.min.is_none() {
                let n = b.events.iter().filter(|e| matches!(e.payload, Payload::Interval(..))).count();
                ensure_eq!(a.len(), n, "profile {i}: number of events ({meta:?})");
            }
            // One track per thread.
            let mut track: BTreeMap<u32, u64> = BTreeMap::new();
            for e in &coll[i].0 {
                let (t, got) = tid_of(e)?;
                let old = *track.entry(t).or_insert(got);
                ensure_eq!(got, old, "profile {i}: second track for thread {t}");
            }
            // Sharing needs disjoint spans.
            let mut by_track: BTreeMap<u64, Vec<((u64, u64), u32)>> = BTreeMap::new();
            for (t, track) in &track {
                by_track.entry(*track).or_default().push((b.spans[t], *t));
            }
            for (track, spans) in &mut by_track {
                spans.sort();
                for w in spans.windows(2) {
                    let ((sx, x), (sy, y)) = (w[0], w[1]);
                    ensure!(sx.1 < sy.0, "profile {i}: threads {x} {sx:?} and {y} {sy:?} overlap but share track {track}");
                }
            }
            // At most as many tracks as threads are ever active at once.
            let mut points: Vec<(u64, bool)> = b.spans.values().flat_map(|(s, e)| [(*s, false), (*e, true)]).collect();
            points.sort();
            let (mut now, mut most) = (0usize, 0usize);
            for (_, end) in points {
                if end {
                    now -= 1;
                } else {
                    now += 1;
                    most = most.max(now);
                }
            }
            let used: BTreeSet<u64> = track.values().copied().collect();
            ensure!(used.len() <= most, "profile {i}: {} tracks used, but at most {most} threads are active at once", used.len());
            if let Some(m) = used.iter().last() {
                ensure!(*m < most as u64, "profile {i}: track {m} used, but at most {most} threads are active at once");
            }
            if !b.instant_only && case.min.is_none() {
                ensure!(used.iter().copied().eq(0..used.len() as u64), "profile {i}: tracks are not numbered from zero without gaps: {used:?}");
            }
            let shared = track.len() > used.len();
            ctx.class_if(shared, "shared track");
            ctx.class_if(b.instant_only, "thread with instants only");
            ctx.class_if(
                {
                    let mut starts: BTreeMap<u64, Vec<u32>> = BTreeMap::new();
                    b.spans.iter().for_each(|(t, x)| starts.entry(x.0).or_default().push(*t));
                    b.spans.iter().any(|(t, x)| starts.get(&x.1).is_some_and(|v| v.iter().any(|u| b.spans[u] != b.spans[t])))
                },
                "spans touch at one point",
            );
            ctx.nontrivial_if(shared && used.len() >= 2);
        }
        ctx.class_if(built.len() > 1, "several profiles");
        ctx.class_if(case.min.is_some(), "minimum duration");
        Ok(())
    }
}
