//! C18: the event viewer.
use crate::codec::{self, Layout, Meta};
use crate::driver::*;
use crate::model::{Ev, Gen, Hist, Payload};
use crate::tools;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub hist: Hist,
    pub meta: Meta,
    pub layout: Layout,
    pub old: bool,
    pub prefix: bool,
    /// thread filter: one of the recorded threads, or any
    pub thread: Option<(bool, u32)>,
    /// keep only events of some payload types
    pub only: u8,
}

pub fn expected(events: &[Ev], tid: Option<u32>) -> String {
    let first = events
        .iter()
        .filter_map(|e| match e.payload {
            Payload::Interval(a, _) | Payload::Instant(a) => Some(a),
            Payload::Integer(_) => None,
        })
        .min()
        .unwrap_or(0);
    let us = |t: u64| (t - first) / 1000;
    let mut s = String::new();
    for e in events {
        if tid.is_some_and(|t| t != e.tid) {
            continue;
        }
        let payload = match e.payload {
            Payload::Interval(a, b) => format!("{} μs - {} μs", us(a), us(b)),
            Payload::Instant(a) => format!("{} μs", us(a)),
            Payload::Integer(v) => v.to_string(),
        };
        s += &format!(
            "{{\n    kind: {},\n    label: {},\n    additional_data: [{}],\n    payload: {payload},\n    thread_id: {},\n}}\n",
            e.kind,
            e.label,
            e.args.join(","),
            e.tid
        );
    }
    s
}

pub struct P;
impl Prop for P {
    type Case = Case;
    const ID: &'static str = "C18";
    const RULE: &'static str = "Generated recordings (any conforming text, threads, all payloads; also of integers, instants or intervals only, and empty), v8 and v9, printed by the built mmview with and without a thread filter; the whole output is compared with the entries of the generated events. Non-trivial: at least two events of different threads or types.";
    fn cases(t: Tier) -> u32 {
        t.pick(25_000, 1_000_000)
    }
    fn strategy(_t: Tier) -> BoxedStrategy<Case> {
        (
            crate::model::hist(Gen { max_ops: 30, ..Gen::default() }),
            crate::model::meta(),
            crate::model::layout(),
            any::<bool>(),
            any::<bool>(),
            proptest::option::of((proptest::bool::weighted(0.85), any::<u32>())),
            prop_oneof![4 => Just(0u8), 1 => Just(1u8), 1 => Just(2u8), 1 => Just(3u8)],
        )
            .prop_map(|(hist, meta, layout, old, prefix, thread, only)| Case { hist, meta, layout, old, prefix, thread, only })
            .boxed()
    }
    fn fixed(_t: Tier) -> Vec<Case> {
        (0..3)
            .map(|i| Case {
                hist: crate::model::long_hist(17_000),
                meta: Meta { start_ns: 1_700_000_000_000_000_001, pid: 7, cmd: "x".into() },
                layout: Layout { shapes: vec![0, 5, 2, 7], ..Layout::default() },
                old: i == 1,
                prefix: i == 0,
                thread: (i == 2).then_some((true, 5)),
                only: 0,
            })
            .chain(crate::model::big_hists().into_iter().enumerate().map(|(i, hist)| Case {
                hist,
                meta: Meta::default(),
                layout: Layout::default(),
                old: i == 0,
                prefix: true,
                thread: None,
                only: 0,
            }))
            .collect()
    }
    fn check(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
        let dir = ctx.dir();
        let mut events = case.hist.run().events;
        match case.only {
            1 => events.retain(|e| matches!(e.payload, Payload::Integer(_))),
            2 => events.retain(|e| !matches!(e.payload, Payload::Interval(..))),
            3 => events.retain(|e| matches!(e.payload, Payload::Interval(..))),
            _ => {}
        }
        let stem = &tools::place(&dir.0, case.meta.pid / 3, "p")[..];
        let file = format!("{stem}.mm_profdata");
        tools::write(&dir.0.join(&file), &codec::encode_file(&case.meta, &events, &case.layout, if case.old { 8 } else { 9 }));
        let mut args = tools::args([if case.prefix { stem } else { &file }]);
        let tid = case.thread.map(|(known, t)| {
            if known && !events.is_empty() {
                events[t as usize % events.len()].tid
            } else {
                t
            }
        });
        if let Some(t) = tid {
            args.push(if t % 2 == 0 { "-t".into() } else { "--thread-id".into() });
            args.push(t.to_string().into());
        }
        let out = tools::run("mmview", &dir.0, &args).success(&format!("mmview {args:?}"))?;
        let want = expected(&events, tid);
        if out.stdout != want {
            let at = out.stdout.lines().zip(want.lines()).position(|(a, b)| a != b).unwrap_or(out.stdout.lines().count().min(want.lines().count()));
            let show = |s: &str| s.lines().skip(at.saturating_sub(8)).take(16).collect::<Vec<_>>().join("\n");
            return Err(format!("mmview {args:?}: the output differs from line {at} on: got\n{}\nexpected\n{}", show(&out.stdout), show(&want)));
        }
        let integers_only = !events.is_empty() && events.iter().all(|e| matches!(e.payload, Payload::Integer(_)));
        ctx.class_if(integers_only, "integers only");
        ctx.class_if(stem != "p", "profile in another directory");
        ctx.class_if(events.is_empty(), "no events");
        ctx.class_if(tid.is_some(), "thread filter");
        ctx.count("events", events.len() as u64);
        let types = events.iter().map(|e| (std::mem::discriminant(&e.payload), e.tid)).collect::<std::collections::HashSet<_>>().len();
        ctx.nontrivial_if(types >= 2);
        Ok(())
    }
}
