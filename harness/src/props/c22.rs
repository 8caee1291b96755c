//! C22: relations between event times.
use crate::codec::{Layout, Meta};
use crate::driver::*;
use crate::load::{epoch, load};
use crate::model::{Ev, Payload, MAX_INTERVAL, MAX_VALUE};
use analyzeme::Timestamp;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::time::Duration;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub start: u64,
    pub v8: bool,
    pub ps: Vec<Payload>,
    pub probe: Vec<u64>,
}

pub struct P;
impl Prop for P {
    type Case = Case;
    const ID: &'static str = "C22";
    const RULE: &'static str = "Sets of 2-6 events over the whole payload range, their times drawn from a small pool so that boundaries coincide or differ by 1 ns, any session start; all ordered pairs are compared with integer arithmetic, for events, lightweight events and payloads. Non-trivial: some pair shares a boundary or is strictly nested.";
    fn cases(t: Tier) -> u32 {
        t.pick(2_000_000, 100_000_000)
    }
    fn strategy(_t: Tier) -> BoxedStrategy<Case> {
        let base = prop_oneof![3 => 0u64..50, 1 => (0u32..48).prop_map(|s| 1u64 << s), 1 => 0..=MAX_INTERVAL, 1 => Just(MAX_INTERVAL), 1 => Just(MAX_INTERVAL - 5)];
        let pool = proptest::collection::vec(base, 1..4);
        let p = (0u8..4, any::<u8>(), -2i64..=2, any::<u8>(), -2i64..=2);
        (
            prop_oneof![1 => Just(0u64), 2 => 0u64..2_000_000_000_000_000_000, 1 => Just(999_999_999u64), 1 => Just(1_000_000_000u64)],
            any::<bool>(),
            pool,
            proptest::collection::vec(p, 2..7),
        )
            .prop_map(|(start, v8, pool, ps)| {
                let at = |i: u8, d: i64| (pool[i as usize % pool.len()] as i64 + d).clamp(0, MAX_INTERVAL as i64) as u64;
                let ps: Vec<Payload> = ps
                    .into_iter()
                    .map(|(k, i, d, j, e)| {
                        let (a, b) = (at(i, d), at(j, e));
                        match k {
                            0 | 1 => Payload::Interval(a.min(b), a.max(b)),
                            2 => Payload::Instant(if d == 2 && e == 2 { MAX_VALUE } else { a }),
                            _ => Payload::Integer(a),
                        }
                    })
                    .collect();
                Case { start, v8, ps, probe: pool }
            })
            .boxed()
    }
    fn check(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
        let meta = Meta { start_ns: case.start, ..Default::default() };
        let events: Vec<Ev> = case
            .ps
            .iter()
            .enumerate()
            .map(|(i, p)| Ev { kind: "K".into(), label: format!("l{i}"), args: vec![], tid: i as u32, payload: p.clone() })
            .collect();
        let data = load(&meta, &events, &Layout::default(), if case.v8 { 2 } else { 0 })?;
        let light: Vec<_> = data.iter().collect();
        let full: Vec<_> = data.iter_full().collect();
        ensure_eq!(full.len(), case.ps.len(), "number of events");
        let t = |n: u64| epoch(case.start) + Duration::from_nanos(n);
        for i in 0..full.len() {
            let (f, l, p) = (&full[i], &light[i], &case.ps[i]);
            ensure_eq!(f.payload, l.payload, "payload of full and lightweight event");
            let dur = match p {
                Payload::Interval(a, b) => Some(Duration::from_nanos(b - a)),
                _ => None,
            };
            let (s, e, int) = match p {
                Payload::Interval(a, b) => (Some(t(*a)), Some(t(*b)), None),
                Payload::Instant(a) => (Some(t(*a)), Some(t(*a)), None),
                Payload::Integer(v) => (None, None, Some(*v)),
            };
            ensure_eq!(f.duration(), dur, "Event::duration of {p:?}");
            ensure_eq!(l.duration(), dur, "LightweightEvent::duration of {p:?}");
            ensure_eq!(f.payload.duration(), dur, "EventPayload::duration of {p:?}");
            ensure_eq!(l.start(), s, "start of {p:?}");
            ensure_eq!(l.end(), e, "end of {p:?}");
            ensure_eq!(f.integer(), int, "Event::integer of {p:?}");
            ensure_eq!(f.payload.integer(), int, "EventPayload::integer of {p:?}");
            ensure_eq!(f.payload.is_interval(), matches!(p, Payload::Interval(..)), "is_interval of {p:?}");
            ensure_eq!(f.payload.is_instant(), matches!(p, Payload::Instant(_)), "is_instant of {p:?}");
            ensure_eq!(f.payload.is_integer(), matches!(p, Payload::Integer(_)), "is_integer of {p:?}");
            let want = match p {
                Payload::Interval(a, b) => Some(Timestamp::Interval { start: t(*a), end: t(*b) }),
                Payload::Instant(a) => Some(Timestamp::Instant(t(*a))),
                Payload::Integer(_) => None,
            };
            ensure_eq!(f.payload.timestamp(), want, "timestamp of {p:?}");
            ensure_eq!(l.timestamp(), want, "lightweight timestamp of {p:?}");
            if let Payload::Interval(a, b) = p {
                // Made by hand: a range that ends before it starts.
                if a < b {
                    let back = Timestamp::Interval { start: t(*b), end: t(*a) };
                    ensure_eq!(analyzeme::EventPayload::Timestamp(back).duration(), None, "duration of a payload from {b} to {a}");
                }
            }
            if let Some(ts) = f.payload.timestamp() {
                ensure_eq!(Some(ts.start()), s, "Timestamp::start of {p:?}");
                ensure_eq!(Some(ts.end()), e, "Timestamp::end of {p:?}");
                ensure_eq!(ts.duration(), dur, "Timestamp::duration of {p:?}");
                ensure_eq!(ts.is_instant(), matches!(p, Payload::Instant(_)), "Timestamp::is_instant of {p:?}");
                if let Payload::Interval(a, b) = p {
                    // A range of time includes its start, not its end.
                    for n in case.probe.iter().flat_map(|n| [n.saturating_sub(1), *n, n + 1]).chain([*a, *b]) {
                        ensure_eq!(ts.contains(t(n)), *a <= n && n < *b, "{p:?} contains the point {n}");
                    }
                } else if let Payload::Instant(a) = p {
                    ensure!(!ts.contains(t(*a)), "the instant {a} contains itself");
                }
            }
            for j in 0..full.len() {
                let q = &case.ps[j];
                let want = match (p, q) {
                    (Payload::Interval(a, b), Payload::Interval(c, d)) => {
                        ctx.class_if(i != j && (a == c || b == d || b == c), "shared boundary");
                        ctx.class_if(a < c && d < b, "strictly nested");
                        ctx.nontrivial_if(i != j && (a == c || b == d || b == c) || a < c && d < b);
                        a <= c && d <= b
                    }
                    (Payload::Interval(a, b), Payload::Instant(c)) => {
                        ctx.class_if(a == c || b == c, "instant on a boundary");
                        a <= c && c <= b
                    }
                    _ => false,
                };
                ensure_eq!(f.contains(&full[j]), want, "Event: {p:?} contains {q:?}");
                ensure_eq!(l.contains(&light[j]), want, "LightweightEvent: {p:?} contains {q:?}");
                ensure_eq!(f.payload.contains(&full[j].payload), want, "EventPayload: {p:?} contains {q:?}");
            }
        }
        Ok(())
    }
}
