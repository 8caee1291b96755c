//! C23: recorded times against a second reading of the monotonic clock around every call.
use crate::clock::Sim;
use crate::driver::*;
use analyzeme::{EventPayload, ProfilingData, Timestamp};
use measureme::counters::{Counter, WallTime};
use measureme::{DetachedTiming, EventId, Profiler, StringId, TimingGuard};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::time::Instant;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    Instant,
    Open,
    Close(u8),
    CloseAs(u8),
    OpenDetached,
    CloseDetached(u8),
    Spin(u32),
    Sleep(u32),
    /// so many nanoseconds pass
    Jump(u64),
    /// somebody sets the time of day (nanoseconds off)
    Wall(i64),
    /// slow other work: strings and other events
    Work(u16),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    /// 0: Profiler::new, 1: a counter made by hand, 2: the counter by its name
    pub how: u8,
    /// nanoseconds between the creation of the counter and of the profiler
    pub before: u32,
    /// one list per thread and phase; open intervals move to the next thread between phases
    pub threads: Vec<Vec<Op>>,
    pub phases: Vec<Vec<Op>>,
    /// Time passes by generated delays only: every recorded time is known exactly.
    #[serde(default)]
    pub stopped: bool,
}

type B = (Instant, Instant);

#[derive(Clone, Debug)]
enum Rec {
    Instant(B),
    Interval(B, B),
}

fn br<R>(f: impl FnOnce() -> R) -> (R, B) {
    let a = Instant::now();
    let r = f();
    let b = Instant::now();
    (r, (a, b))
}

fn spin(clock: &Sim, ns: u32) {
    if clock.is_stopped() {
        return clock.jump(ns as u64);
    }
    let t = Instant::now();
    while (t.elapsed().as_nanos() as u64) < ns as u64 {}
}

struct Th<'p> {
    p: &'p Profiler,
    clock: &'p Sim,
    tid: u32,
    next: u32,
    guards: Vec<(TimingGuard<'p>, B, u32, u32)>,
    detached: Vec<(DetachedTiming, B, u32, u32)>,
    /// (kind id, tid) identifies an event
    out: Vec<(u32, u32, Rec)>,
}

impl<'p> Th<'p> {
    fn step(&mut self, op: &Op) {
        let p = self.p;
        let id = self.next;
        let e = EventId::from_virtual(StringId::new_virtual(9_000_000u32));
        let k = StringId::new_virtual(id);
        match op {
            Op::Instant => {
                let (_, b) = br(|| p.record_instant_event(k, e, self.tid));
                self.out.push((id, self.tid, Rec::Instant(b)));
                self.next += 1;
            }
            Op::Open => {
                let (g, b) = br(|| p.start_recording_interval_event(k, e, self.tid));
                self.guards.push((g, b, id, self.tid));
                self.next += 1;
            }
            Op::OpenDetached => {
                let (g, b) = br(|| p.start_recording_interval_event_detached(k, e, self.tid));
                self.detached.push((g, b, id, self.tid));
                self.next += 1;
            }
            Op::Close(i) | Op::CloseAs(i) if !self.guards.is_empty() => {
                let n = self.guards.len() - 1 - *i as usize % self.guards.len();
                let (g, s, id, tid) = self.guards.remove(n);
                let (_, b) = br(|| match op {
                    Op::Close(_) => drop(g),
                    _ => g.finish_with_override_event_id(e),
                });
                self.out.push((id, tid, Rec::Interval(s, b)));
            }
            Op::CloseDetached(i) if !self.detached.is_empty() => {
                let n = self.detached.len() - 1 - *i as usize % self.detached.len();
                let (g, s, id, tid) = self.detached.remove(n);
                let (_, b) = br(|| p.finish_recording_interval_event(g));
                self.out.push((id, tid, Rec::Interval(s, b)));
            }
            Op::Close(_) | Op::CloseAs(_) | Op::CloseDetached(_) => {}
            Op::Spin(n) => spin(self.clock, *n),
            Op::Sleep(ms) if self.clock.is_stopped() => self.clock.jump(*ms as u64 * 1_000_000),
            Op::Sleep(ms) => std::thread::sleep(std::time::Duration::from_millis(*ms as u64)),
            Op::Jump(n) => self.clock.jump(*n),
            Op::Wall(n) => self.clock.set_wall(*n),
            Op::Work(n) => {
                for i in 0..*n {
                    p.alloc_string(&format!("string {i}")[..]);
                }
            }
        }
    }
}

fn op() -> BoxedStrategy<Op> {
    prop_oneof![
        5 => Just(Op::Instant),
        5 => Just(Op::Open),
        3 => prop_oneof![2 => Just(0u8), 1 => any::<u8>()].prop_map(Op::Close),
        1 => any::<u8>().prop_map(Op::CloseAs),
        2 => Just(Op::OpenDetached),
        2 => any::<u8>().prop_map(Op::CloseDetached),
        4 => prop_oneof![3 => 0u32..3000, 2 => 0u32..40_000, 1 => Just(1_200_000u32)].prop_map(Op::Spin),
        1 => (1u16..400).prop_map(Op::Work),
        1 => prop_oneof![
                2 => (10u32..47, -2i64..=2).prop_map(|(s, d)| (1u64 << s).wrapping_add_signed(d)),
                2 => (1u64..200_000, 0u64..1_000_000_000).prop_map(|(s, n)| s * 1_000_000_000 + n),
                1 => proptest::sample::select(vec![60u64, 3600, 86_400, 4_294, 4_295, 4_294_967, 2_147_484]).prop_map(|s| s * 1_000_000_000),
            ].prop_map(Op::Jump),
        1 => prop_oneof![2 => Just(0i64), 1 => -4_000_000_000_000i64..4_000_000_000_000, 1 => -1_000_000i64..1_000_000, 1 => -1_000_000_000_000_000_000i64..1_000_000_000_000_000_000].prop_map(Op::Wall),
    ]
    .boxed()
}

pub struct P;
impl Prop for P {
    type Case = Case;
    const ID: &'static str = "C23";
    const RULE: &'static str = "Sequences of instants, guards and detached intervals on one to three real threads with generated delays up to some milliseconds (boundary cases: more than one and more than four seconds), simulated delays up to days and changes of the time of day (in half of the cases time passes by simulated delays only, so that every time is known to the nanosecond), on a profiler made by new, with a hand-made counter or with the counter by name. Every call is bracketed by readings of the monotonic clock; one creation time inside the creation bracket must explain all recorded times. Non-trivial: at least two events with a delay between them.";
    const ASSUMPTIONS: &'static [&'static str] = &["std::time::Instant is the same monotonic clock for all threads"];
    fn cases(t: Tier) -> u32 {
        t.pick(24_000, 800_000)
    }
    fn strategy(_t: Tier) -> BoxedStrategy<Case> {
        (
            0u8..3,
            prop_oneof![2 => Just(0u32), 1 => 0u32..2_000_000],
            prop_oneof![
                3 => proptest::collection::vec(proptest::collection::vec(op(), 0..24), 1..2),
                2 => proptest::collection::vec(proptest::collection::vec(op(), 0..12), 2..4),
            ],
            proptest::collection::vec(proptest::collection::vec(op(), 0..10), 0..3),
            any::<bool>(),
        )
            .prop_map(|(how, before, threads, phases, stopped)| Case { how, before, threads, phases, stopped })
            .boxed()
    }
    fn fixed(t: Tier) -> Vec<Case> {
        let long = |ms: u32| {
            vec![Op::Instant, Op::Open, Op::OpenDetached, Op::Spin(1000), Op::Sleep(ms), Op::Instant, Op::Close(0), Op::CloseDetached(0), Op::Open, Op::Spin(999), Op::CloseAs(0), Op::Instant]
        };
        let mut v: Vec<Case> = [(0, 1100), (1, 2300), (2, 4400), (0, 5100)]
            .iter()
            .map(|(how, ms)| Case { how: *how, before: 0, threads: vec![long(*ms)], phases: vec![], stopped: false })
            .collect();
        if t == Tier::Thorough {
            v.push(Case { how: 0, before: 0, threads: vec![long(70_000)], phases: vec![], stopped: false });
        }
        v
    }
    fn check(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
        let dir = ctx.dir();
        let stem = dir.0.join("t");
        let clock = Sim::default();
        let _simulated = clock.enter();
        let clock = &clock;
        if case.stopped {
            clock.stop();
        }
        let made = |r: Result<Profiler, Box<dyn std::error::Error + Send + Sync>>| r.map_err(|e| format!("no profiler: {e}"));
        let (p, c) = match case.how {
            0 => {
                let (p, c) = br(|| Profiler::new(&stem));
                (made(p)?, c)
            }
            h => {
                let (k, c) = br(|| if h == 1 { Ok(Counter::WallTime(WallTime::new())) } else { Counter::by_name("wall-time") });
                let k = k.map_err(|e| format!("counter wall-time: {e}"))?;
                spin(clock, case.before);
                (made(Profiler::with_counter(&stem, k))?, c)
            }
        };
        let n = case.threads.len();
        let mut ths: Vec<Th> = (0..n)
            .map(|i| Th { p: &p, clock, tid: i as u32 + 1, next: 0, guards: vec![], detached: vec![], out: vec![] })
            .collect();
        if n == 1 {
            for o in &case.threads[0] {
                ths[0].step(o);
            }
        } else {
            std::thread::scope(|s| {
                for (t, ops) in ths.iter_mut().zip(&case.threads) {
                    s.spawn(move || {
                        let _simulated = clock.enter();
                        ops.iter().for_each(|o| t.step(o))
                    });
                }
            });
        }
        // A further phase runs on another thread and may finish what the first left open.
        for (i, ops) in case.phases.iter().enumerate() {
            let from = i % n;
            let mut t = std::mem::replace(&mut ths[from], Th { p: &p, clock, tid: 0, next: 0, guards: vec![], detached: vec![], out: vec![] });
            t = std::thread::scope(|s| {
                s.spawn(move || {
                    let _simulated = clock.enter();
                    ops.iter().for_each(|o| t.step(o));
                    t
                })
                .join()
                .map_err(|e| format!("a thread that records fails: {}", e.downcast_ref::<String>().map_or("?", |s| s)))
            })?;
            ths[from] = t;
        }
        let mut want: std::collections::HashMap<(u32, u32), Rec> = Default::default();
        for t in ths {
            let mut t = t;
            while !t.guards.is_empty() {
                t.step(&Op::Close(0));
            }
            for (id, tid, r) in t.out {
                want.insert((id, tid), r);
            }
        }
        let names: Vec<StringId> = (0..200u32).map(|i| p.alloc_string(&i.to_string()[..])).collect();
        for (i, s) in names.iter().enumerate() {
            p.map_virtual_to_concrete_string(StringId::new_virtual(i as u32), *s);
        }
        drop(p);
        let d = match catch(|| ProfilingData::new(&stem.with_extension("mm_profdata"))) {
            Ok(Ok(d)) => d,
            Ok(Err(e)) => return Err(format!("the profile cannot be read: {e}")),
            Err(m) => return Err(format!("the profile cannot be read: {m}")),
        };
        let start = d.metadata().start_time;
        ensure_eq!(d.num_events(), want.len(), "number of events");
        // The creation time, in nanoseconds after c.0: all brackets narrow it down.
        let z = c.0;
        let at = |i: Instant| i.duration_since(z).as_nanos() as i128;
        let (mut lo, mut hi) = (0i128, at(c.1));
        let mut narrow = |t: std::time::SystemTime, b: B, what: &str| -> Result<(), String> {
            let t = t.duration_since(start).map_err(|_| format!("{what} lies before the session start"))?.as_nanos() as i128;
            let (l, h) = (at(b.0) - t, at(b.1) - t);
            if l > hi || h < lo {
                return Err(format!(
                    "{what} is recorded as {t} ns after the creation, but the call was made {} to {} ns after it",
                    at(b.0) - hi,
                    at(b.1) - lo
                ));
            }
            lo = lo.max(l);
            hi = hi.min(h);
            Ok(())
        };
        let mut delays = false;
        let mut longest = 0;
        for e in d.iter_full() {
            let id: u32 = e.event_kind.parse().map_err(|_| format!("unknown event {e:?}"))?;
            let Some(w) = want.get(&(id, e.thread_id)) else {
                return Err(format!("unknown event {e:?}"));
            };
            match (w, &e.payload) {
                (Rec::Instant(b), EventPayload::Timestamp(Timestamp::Instant(t))) => narrow(*t, *b, "an instant")?,
                (Rec::Interval(a, b), EventPayload::Timestamp(Timestamp::Interval { start, end })) => {
                    ensure!(start <= end, "an interval ends before it starts");
                    narrow(*start, *a, "the start of an interval")?;
                    narrow(*end, *b, "the end of an interval")?;
                    delays |= at(b.0) - at(a.1) > 1000;
                    longest = longest.max(at(b.1));
                }
                _ => return Err(format!("event {id} has the wrong type: {e:?}")),
            }
        }
        // Exact order within a thread: later calls never have earlier times. (Implied by the
        // brackets only up to their width.)
        let mut calls: Vec<(u32, B, std::time::SystemTime)> = vec![];
        for e in d.iter_full() {
            let id: u32 = e.event_kind.parse().unwrap();
            match (&want[&(id, e.thread_id)], &e.payload) {
                (Rec::Instant(b), EventPayload::Timestamp(Timestamp::Instant(t))) => calls.push((e.thread_id, *b, *t)),
                (Rec::Interval(a, b), EventPayload::Timestamp(Timestamp::Interval { start, end })) => {
                    calls.push((e.thread_id, *a, *start));
                    calls.push((e.thread_id, *b, *end));
                }
                _ => unreachable!(),
            }
        }
        calls.sort_by_key(|c| c.1 .0);
        let mut max: Option<(B, std::time::SystemTime)> = None;
        for (_, b, t) in &calls {
            if let Some((mb, mt)) = &max {
                if b.0 >= mb.1 {
                    ensure!(t >= mt, "a call made after another one has an earlier time");
                }
            }
            if max.as_ref().map_or(true, |m| b.1 >= m.0 .1 && *t >= m.1) {
                max = Some((*b, *t));
            }
        }
        ctx.class_if(case.stopped, "times known exactly");
        ctx.class_if(n > 1, "several threads");
        ctx.class_if(longest > 1_000_000_000, "longer than a second");
        ctx.class_if(longest > 1 << 42, "longer than an hour");
        let all = || case.threads.iter().chain(&case.phases).flatten();
        ctx.class_if(all().any(|o| matches!(o, Op::Wall(n) if *n != 0)), "time of day set");
        ctx.count("bracketed times", calls.len() as u64);
        ctx.nontrivial_if(want.len() >= 2 && delays);
        Ok(())
    }
}
