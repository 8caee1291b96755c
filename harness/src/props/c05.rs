//! C05: histories of recording calls on the real profiler, by several threads.
use crate::driver::*;
use analyzeme::{EventPayload, ProfilingData, Timestamp};
use measureme::{DetachedTiming, EventId, EventIdBuilder, Profiler, StringComponent, StringId, TimingGuard};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

/// (class, index): 0 shared text, 1 own string, 2 virtual id, 3 the invalid id
pub type SRef = (u8, u16);

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    Str(u8),
    Long(u32),
    Comp(Vec<(bool, u8, SRef)>),
    /// form 0: label only, 1: one argument, 2: many, 3: virtual id
    Id { form: u8, label: SRef, args: Vec<SRef> },
    Instant { kind: SRef, id: u8, alt: bool },
    Integer { kind: SRef, id: u8, alt: bool, value: u64 },
    Open { kind: SRef, id: u8, alt: bool },
    Close(u8),
    CloseAs(u8, u8),
    /// the innermost n + 1 guards end because a panic passes through
    Unwind(u8),
    /// what destructors do while a panic passes through
    During(Vec<Op>),
    OpenDetached { kind: SRef, id: u8, alt: bool },
    CloseDetached(u8),
    Map(u8, SRef),
    Bulk(u8, u8, SRef),
    Burst { n: u16, kind: SRef, id: u8 },
    /// allocate this many strings and use each as a label
    Strings(u16),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub texts: Vec<String>,
    /// distinct ids
    pub virt: Vec<u32>,
    /// two per thread, distinct
    pub tids: Vec<u32>,
    /// per thread: operations of the first phase and of the second, which inherits the open
    /// intervals of the neighbour
    pub ops: Vec<(Vec<Op>, Vec<Op>)>,
    /// mapped by the main thread at the end
    pub late: Vec<(u8, u8)>,
    pub dirs: bool,
    pub junk: bool,
    pub stem: u8,
    /// with one thread: 1: on a simulated hardware counter that stands still, 2: that advances
    #[serde(default)]
    pub still: u8,
    /// the profiler is dropped because a panic passes through
    #[serde(default)]
    pub unwound: bool,
}

/// Runs `f` from a destructor while a panic passes through.
fn unwinding<F: FnOnce()>(f: F) {
    struct D<'a, F: FnOnce()>(Option<F>, &'a mut Option<std::thread::Result<()>>);
    impl<F: FnOnce()> Drop for D<'_, F> {
        fn drop(&mut self) {
            let f = self.0.take().unwrap();
            *self.1 = Some(std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)));
        }
    }
    let mut r = None;
    let outer = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        let _d = D(Some(f), &mut r);
        std::panic::resume_unwind(Box::new(17u8));
    }));
    assert!(outer.is_err_and(|e| e.downcast_ref() == Some(&17u8)), "harness: unwinding");
    if let Some(Err(e)) = r {
        std::panic::resume_unwind(e);
    }
}

#[derive(Clone, Debug, PartialEq)]
enum Part {
    Text(String),
    Virt(u32),
    Unknown,
}

type Parts = std::sync::Arc<Vec<Part>>;

#[derive(Clone)]
struct Sym {
    id: StringId,
    parts: Parts,
}

#[derive(Clone, Debug)]
enum Want {
    Interval,
    Instant,
    Integer(u64),
}

#[derive(Clone)]
struct Rec {
    kind: Parts,
    id: Parts,
    tid: u32,
    want: Want,
}

struct Open<T> {
    t: T,
    rec: Rec,
}

struct Thread<'c, 'p> {
    case: &'c Case,
    p: &'p Profiler,
    n: usize,
    me: usize,
    shared: &'c [Sym],
    own: Vec<Sym>,
    ids: Vec<(EventId, Parts)>,
    guards: Vec<Open<TimingGuard<'p>>>,
    detached: Vec<Open<DetachedTiming>>,
    mapped: BTreeMap<u32, Parts>,
    out: Vec<Rec>,
}

fn weight(p: &[Part]) -> usize {
    p.iter().map(|p| if let Part::Text(t) = p { t.len() } else { 9 }).sum::<usize>() + p.len()
}

impl<'c, 'p> Thread<'c, 'p> {
    fn sref(&self, r: SRef) -> Sym {
        let i = r.1 as usize;
        match r.0 % 4 {
            1 if !self.own.is_empty() => self.own[i % self.own.len()].clone(),
            2 if !self.case.virt.is_empty() => {
                let v = self.case.virt[i % self.case.virt.len()];
                Sym { id: StringId::new_virtual(v), parts: vec![Part::Virt(v)].into() }
            }
            3 => Sym { id: StringId::INVALID, parts: vec![Part::Unknown].into() },
            _ => self.shared[i % self.shared.len()].clone(),
        }
    }
    fn eid(&self, i: u8) -> (EventId, Parts) {
        if self.ids.is_empty() {
            let s = self.sref((0, i as u16));
            (EventId::from_label(s.id), s.parts)
        } else {
            self.ids[self.ids.len() - 1 - i as usize % self.ids.len()].clone()
        }
    }
    fn tid(&self, alt: bool) -> u32 {
        self.case.tids[2 * self.me + alt as usize]
    }
    /// The virtual id may be mapped by this thread, and has not been.
    fn may_map(&self, i: u8) -> Option<u32> {
        if self.case.virt.is_empty() {
            return None;
        }
        let k = i as usize % self.case.virt.len();
        let v = self.case.virt[k];
        (k % self.n == self.me && !self.mapped.contains_key(&v)).then_some(v)
    }
    fn target(&self, r: SRef) -> Sym {
        let s = self.sref(r);
        if s.parts.iter().any(|p| !matches!(p, Part::Text(_))) || (self.case.texts.len() > 1 && weight(&s.parts) > 3000) {
            self.sref((0, r.1))
        } else {
            s
        }
    }

    fn step(&mut self, op: &Op) {
        let b = EventIdBuilder::new(self.p);
        match op {
            Op::Str(i) => {
                let t = &self.case.texts[*i as usize % self.case.texts.len()];
                self.own.push(Sym { id: self.p.alloc_string(&t[..]), parts: vec![Part::Text(t.clone())].into() });
            }
            Op::Long(n) => {
                let t = "L".repeat(*n as usize);
                self.own.push(Sym { id: self.p.alloc_string(&t[..]), parts: vec![Part::Text(t)].into() });
            }
            Op::Comp(cs) => {
                let mut parts = vec![];
                let mut comps = vec![];
                for (is_ref, text, r) in cs {
                    if *is_ref {
                        let s = self.sref(*r);
                        if weight(&parts) + weight(&s.parts) > 4000 {
                            continue;
                        }
                        comps.push(StringComponent::Ref(s.id));
                        parts.extend(s.parts.iter().cloned());
                    } else {
                        let t = &self.case.texts[*text as usize % self.case.texts.len()];
                        comps.push(StringComponent::Value(t));
                        parts.push(Part::Text(t.clone()));
                    }
                }
                if !comps.is_empty() {
                    self.own.push(Sym { id: self.p.alloc_string(&comps[..]), parts: parts.into() });
                }
            }
            Op::Id { form, label, args } => {
                let l = self.sref(*label);
                let mut parts = l.parts.to_vec();
                let mut a: Vec<Sym> = vec![];
                let mut sum = 0;
                for r in args {
                    let s = self.sref(*r);
                    // a virtual id may stand for a very long string
                    let w = weight(&s.parts) + if sum > 3000 || args.len() > 12 { 50 * s.parts.iter().filter(|p| matches!(p, Part::Virt(_))).count() } else { 0 };
                    if sum + w < 10_000 {
                        sum += w;
                        a.push(s);
                    }
                }
                let id = match form % 4 {
                    1 if !a.is_empty() => {
                        a.truncate(1);
                        b.from_label_and_arg(l.id, a[0].id)
                    }
                    2 => b.from_label_and_args(l.id, &a.iter().map(|s| s.id).collect::<Vec<_>>()),
                    3 => {
                        let s = self.sref((2, label.1));
                        parts = s.parts.to_vec();
                        a.clear();
                        EventId::from_virtual(s.id)
                    }
                    _ => {
                        a.clear();
                        b.from_label(l.id)
                    }
                };
                for s in a {
                    parts.push(Part::Text("\x1E".into()));
                    parts.extend(s.parts.iter().cloned());
                }
                self.ids.push((id, parts.into()));
            }
            Op::Instant { kind, id, alt } => {
                let (k, (e, parts), tid) = (self.sref(*kind), self.eid(*id), self.tid(*alt));
                self.p.record_instant_event(k.id, e, tid);
                self.out.push(Rec { kind: k.parts, id: parts, tid, want: Want::Instant });
            }
            Op::Integer { kind, id, alt, value } => {
                let (k, (e, parts), tid) = (self.sref(*kind), self.eid(*id), self.tid(*alt));
                self.p.record_integer_event(k.id, e, tid, *value);
                self.out.push(Rec { kind: k.parts, id: parts, tid, want: Want::Integer(*value) });
            }
            Op::Open { kind, id, alt } => {
                let (k, (e, parts), tid) = (self.sref(*kind), self.eid(*id), self.tid(*alt));
                let t = self.p.start_recording_interval_event(k.id, e, tid);
                self.guards.push(Open { t, rec: Rec { kind: k.parts, id: parts, tid, want: Want::Interval } });
            }
            Op::Close(i) if !self.guards.is_empty() => {
                let k = self.guards.len() - 1 - *i as usize % self.guards.len();
                let g = self.guards.remove(k);
                drop(g.t);
                self.out.push(g.rec);
            }
            Op::CloseAs(i, id) if !self.guards.is_empty() => {
                let k = self.guards.len() - 1 - *i as usize % self.guards.len();
                let mut g = self.guards.remove(k);
                let (e, parts) = self.eid(*id);
                g.t.finish_with_override_event_id(e);
                g.rec.id = parts;
                self.out.push(g.rec);
            }
            Op::Unwind(n) if !self.guards.is_empty() => {
                let k = self.guards.len() - 1 - *n as usize % self.guards.len();
                let mut guards = vec![];
                for g in self.guards.drain(k..).rev() {
                    guards.push(g.t);
                    self.out.push(g.rec);
                }
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                    let _guards = guards;
                    std::panic::resume_unwind(Box::new(17u8));
                }));
                assert!(r.is_err_and(|e| e.downcast_ref() == Some(&17u8)), "harness: unwinding");
            }
            Op::During(ops) => unwinding(|| ops.iter().for_each(|o| self.step(o))),
            Op::OpenDetached { kind, id, alt } => {
                let (k, (e, parts), tid) = (self.sref(*kind), self.eid(*id), self.tid(*alt));
                let t = self.p.start_recording_interval_event_detached(k.id, e, tid);
                self.detached.push(Open { t, rec: Rec { kind: k.parts, id: parts, tid, want: Want::Interval } });
            }
            Op::CloseDetached(i) if !self.detached.is_empty() => {
                let k = self.detached.len() - 1 - *i as usize % self.detached.len();
                let g = self.detached.remove(k);
                self.p.finish_recording_interval_event(g.t);
                self.out.push(g.rec);
            }
            Op::Close(_) | Op::CloseAs(..) | Op::CloseDetached(_) | Op::Unwind(_) => {}
            Op::Map(i, r) => {
                if let Some(v) = self.may_map(*i) {
                    let s = self.target(*r);
                    self.p.map_virtual_to_concrete_string(StringId::new_virtual(v), s.id);
                    self.mapped.insert(v, s.parts);
                }
            }
            Op::Bulk(i, n, r) => {
                let s = self.target(*r);
                let ids: Vec<u32> = (0..*n as usize * self.n).filter_map(|k| self.may_map((*i as usize + k) as u8)).collect();
                let mut uniq: Vec<u32> = vec![];
                for v in ids {
                    if !uniq.contains(&v) {
                        uniq.push(v);
                    }
                }
                self.p.bulk_map_virtual_to_single_concrete_string(
                    uniq.iter().map(|v| StringId::new_virtual(*v)).collect::<Vec<_>>().into_iter(),
                    s.id,
                );
                for v in uniq {
                    self.mapped.insert(v, s.parts.clone());
                }
            }
            Op::Burst { n, kind, id } => {
                let (k, (e, parts), tid) = (self.sref(*kind), self.eid(*id), self.tid(false));
                for i in 0..*n as u64 {
                    self.p.record_integer_event(k.id, e, tid, i);
                    self.out.push(Rec { kind: k.parts.clone(), id: parts.clone(), tid, want: Want::Integer(i) });
                }
            }
            Op::Strings(n) => {
                let (k, tid) = (self.sref((0, 0)), self.tid(false));
                for i in 0..*n {
                    let t = format!("string_number_{i}_of_thread_{}", self.me);
                    let id = self.p.alloc_string(&t[..]);
                    self.p.record_instant_event(k.id, EventId::from_label(id), tid);
                    self.out.push(Rec { kind: k.parts.clone(), id: vec![Part::Text(t)].into(), tid, want: Want::Instant });
                }
            }
        }
    }
}

fn resolve(parts: &[Part], mapped: &BTreeMap<u32, Parts>) -> String {
    let mut s = String::new();
    for p in parts {
        match p {
            Part::Text(t) => s.push_str(t),
            Part::Unknown => s.push_str("<unknown>"),
            Part::Virt(v) => match mapped.get(v) {
                Some(q) => s.push_str(&resolve(q, &BTreeMap::new())),
                None => s.push_str("<unknown>"),
            },
        }
    }
    s
}

pub fn sref() -> BoxedStrategy<SRef> {
    (prop_oneof![5 => Just(0u8), 4 => Just(1u8), 4 => Just(2u8), 1 => Just(3u8)], 0u16..16).boxed()
}

fn op() -> BoxedStrategy<Op> {
    prop_oneof![40 => plain_op(), 1 => proptest::collection::vec(plain_op(), 1..5).prop_map(Op::During)].boxed()
}

fn plain_op() -> BoxedStrategy<Op> {
    let args = || prop_oneof![6 => proptest::collection::vec(sref(), 0..4), 1 => proptest::collection::vec(sref(), 4..12), 1 => prop_oneof![3 => 12usize..40, 1 => 40usize..300].prop_flat_map(|n| proptest::collection::vec(sref(), n..=n))];
    prop_oneof![
        3 => any::<u8>().prop_map(Op::Str),
        2 => proptest::collection::vec((any::<bool>(), any::<u8>(), sref()), 1..5).prop_map(Op::Comp),
        6 => (any::<u8>(), sref(), args()).prop_map(|(form, label, args)| Op::Id { form, label, args }),
        4 => (sref(), 0u8..4, any::<bool>()).prop_map(|(kind, id, alt)| Op::Instant { kind, id, alt }),
        4 => (sref(), 0u8..4, any::<bool>(), crate::model::integer_value()).prop_map(|(kind, id, alt, value)| Op::Integer { kind, id, alt, value }),
        6 => (sref(), 0u8..4, any::<bool>()).prop_map(|(kind, id, alt)| Op::Open { kind, id, alt }),
        4 => prop_oneof![2 => Just(0u8), 1 => any::<u8>()].prop_map(Op::Close),
        2 => (prop_oneof![2 => Just(0u8), 1 => any::<u8>()], 0u8..4).prop_map(|(a, b)| Op::CloseAs(a, b)),
        1 => prop_oneof![2 => Just(0u8), 1 => any::<u8>()].prop_map(Op::Unwind),
        3 => (sref(), 0u8..4, any::<bool>()).prop_map(|(kind, id, alt)| Op::OpenDetached { kind, id, alt }),
        3 => any::<u8>().prop_map(Op::CloseDetached),
        3 => (any::<u8>(), sref()).prop_map(|(a, b)| Op::Map(a, b)),
        1 => (any::<u8>(), 0u8..8, sref()).prop_map(|(a, n, b)| Op::Bulk(a, n, b)),
    ]
    .boxed()
}

fn big() -> BoxedStrategy<Op> {
    prop_oneof![
        3 => (prop_oneof![1u16..20, 8000u16..9000, 100u16..3000], sref(), 0u8..4).prop_map(|(n, kind, id)| Op::Burst { n, kind, id }),
        2 => (1u16..6000).prop_map(Op::Strings),
        1 => prop_oneof![1u32..600_000, 100u32..160, 262_100u32..262_200].prop_map(Op::Long),
    ]
    .boxed()
}

pub struct P;
impl Prop for P {
    type Case = Case;
    const ID: &'static str = "C05";
    const RULE: &'static str = "Histories of up to five threads on one real profiler (wall clock; with one thread also a simulated counter that stands still, so that nothing takes time): strings, composites, virtual ids mapped singly or in bulk before or after use or never, event ids of all forms, instants, integers, guards dropped in any order, overridden ids, detached intervals, any of these done by destructors during a panic, hand-over of open intervals to another thread, bursts over many pages; the loaded profile is compared with what was recorded. Non-trivial: at least three events of two types, or two threads with events.";
    const ASSUMPTIONS: &'static [&'static str] = &["a virtual id is mapped at most once, and to a string without virtual ids"];
    fn cases(t: Tier) -> u32 {
        t.pick(40_000, 1_200_000)
    }
    fn strategy(_t: Tier) -> BoxedStrategy<Case> {
        let virt = prop_oneof![3 => 0u32..40, 1 => 0u32..=100_000_000, 1 => 99_999_990u32..=100_000_000, 1 => Just(255u32), 1 => Just(0xFEFFu32)];
        let per = |max| {
            (
                proptest::collection::vec(op(), 0..max),
                prop_oneof![40 => Just(vec![]).boxed(), 1 => proptest::collection::vec(big(), 1..4).boxed()],
                any::<proptest::sample::Index>(),
                proptest::collection::vec(op(), 0..max / 3),
            )
                .prop_map(|(mut a, b, at, c)| {
                    let k = at.index(a.len() + 1);
                    for (i, o) in b.into_iter().enumerate() {
                        a.insert(k + i, o);
                    }
                    (a, c)
                })
        };
        (
            proptest::collection::vec(crate::text::grammar_text(), 1..6),
            proptest::collection::vec(virt, 0..8),
            proptest::collection::vec(crate::model::tid(), 10..11),
            prop_oneof![
                2 => proptest::collection::vec(per(60), 1..2),
                2 => proptest::collection::vec(per(30), 2..6),
            ],
            proptest::collection::vec((any::<u8>(), any::<u8>()), 0..6),
            (any::<(bool, bool, u8)>(), prop_oneof![4 => Just(0u8), 1 => Just(1u8), 1 => Just(2u8)], proptest::bool::weighted(0.1)),
        )
            .prop_map(|(texts, mut virt, mut tids, ops, late, ((dirs, junk, stem), still, unwound))| {
                let mut seen = vec![];
                virt.retain(|v| {
                    let new = !seen.contains(v);
                    seen.push(*v);
                    new
                });
                let mut seen: Vec<u32> = vec![];
                for t in &mut tids {
                    while seen.contains(t) {
                        *t = t.wrapping_add(1);
                    }
                    seen.push(*t);
                }
                Case { texts, virt, tids, ops, late, dirs, junk, stem, still, unwound }
            })
            .boxed()
    }
    fn check(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
        if case.still == 0 || case.ops.len() > 1 {
            return one(case, ctx, false);
        }
        let mut m = crate::hw::Machine::new();
        m.jitter = if case.still == 1 { 0 } else { 3 };
        m.with(|| one(case, ctx, true))
    }
}

fn one(case: &Case, ctx: &mut Ctx, simulated: bool) -> Result<(), String> {
    let dir = ctx.dir();
    let base = if case.dirs { dir.0.join("not/yet.there") } else { dir.0.clone() };
    let stem = base.join(["p", "p.q", "p.mm_profdata", "a b-1234"][case.stem as usize % 4]);
    let file = stem.with_extension("mm_profdata");
    if case.junk && !case.dirs {
        std::fs::write(&file, vec![0x55u8; 70_000]).expect("harness: junk");
    }
    let p = match simulated.then(|| measureme::counters::Counter::by_name("instructions:u")) {
        Some(Ok(c)) => {
            ctx.class(if case.still == 1 { "a counter that stands still" } else { "an instruction counter" });
            Profiler::with_counter(&stem, c)
        }
        _ => Profiler::new(&stem),
    }
    .map_err(|e| format!("the profiler cannot be made: {e}"))?;
    let shared: Vec<Sym> = case
        .texts
        .iter()
        .map(|t| Sym { id: p.alloc_string(&t[..]), parts: vec![Part::Text(t.clone())].into() })
        .collect();
    let n = case.ops.len();
    let mut threads: Vec<Thread> = (0..n)
        .map(|me| Thread {
            case,
            p: &p,
            n,
            me,
            shared: &shared,
            own: vec![],
            ids: vec![],
            guards: vec![],
            detached: vec![],
            mapped: BTreeMap::new(),
            out: vec![],
        })
        .collect();
    for phase in 0..2 {
        let run = |t: &mut Thread| {
            let ops = &case.ops[t.me];
            for o in if phase == 0 { &ops.0 } else { &ops.1 } {
                t.step(o);
            }
        };
        if n == 1 {
            catch(|| run(&mut threads[0])).map_err(|m| format!("recording panics: {m}"))?;
        } else {
            let r: Vec<Result<(), String>> = std::thread::scope(|s| {
                let hs: Vec<_> = threads.iter_mut().map(|t| s.spawn(|| catch(|| run(t)))).collect();
                hs.into_iter().map(|h| h.join().expect("harness: thread")).collect()
            });
            for x in r {
                x.map_err(|m| format!("recording panics: {m}"))?;
            }
        }
        if phase == 0 {
            // the open intervals go to the next thread
            let mut open: Vec<_> = threads
                .iter_mut()
                .map(|t| (std::mem::take(&mut t.guards), std::mem::take(&mut t.detached)))
                .collect();
            open.rotate_right(1);
            for (t, (g, d)) in threads.iter_mut().zip(open) {
                t.guards = g;
                t.detached = d;
            }
        }
    }
    // What is left: guards record when dropped, detached timings do not.
    let mut mapped: BTreeMap<u32, Parts> = BTreeMap::new();
    let mut want: Vec<Vec<Rec>> = vec![];
    for t in threads {
        let mut out = t.out;
        for g in t.guards {
            drop(g.t);
            out.push(g.rec);
        }
        mapped.extend(t.mapped);
        want.push(out);
    }
    for (v, s) in &case.late {
        if case.virt.is_empty() {
            break;
        }
        let v = case.virt[*v as usize % case.virt.len()];
        if mapped.contains_key(&v) {
            continue;
        }
        let s = &shared[*s as usize % shared.len()];
        p.map_virtual_to_concrete_string(StringId::new_virtual(v), s.id);
        mapped.insert(v, s.parts.clone());
    }
    if case.unwound {
        catch(|| unwinding(move || drop(p))).map_err(|m| format!("dropping the profiler panics: {m}"))?;
        ctx.class("dropped while unwinding");
    } else {
        drop(p);
    }

    let d = match catch(|| ProfilingData::new(&file)) {
        Ok(Ok(d)) => d,
        Ok(Err(e)) => return Err(format!("the profile cannot be read: {e}")),
        Err(m) => return Err(format!("the profile cannot be read: {m}")),
    };
    let total: usize = want.iter().map(|w| w.len()).sum();
    ensure_eq!(d.num_events(), total, "number of events");
    // A thread id tells which thread recorded an event, except for handed over intervals:
    // match by id within the recorder's own list.
    let mut memo: std::collections::HashMap<*const Vec<Part>, std::rc::Rc<str>> = Default::default();
    let mut text = |p: &Parts| memo.entry(std::sync::Arc::as_ptr(p)).or_insert_with(|| resolve(p, &mapped).into()).clone();
    let resolved: Vec<Vec<(std::rc::Rc<str>, std::rc::Rc<str>, u32, &Want)>> = want
        .iter()
        .map(|w| w.iter().map(|r| (text(&r.kind), text(&r.id), r.tid, &r.want)).collect())
        .collect();
    let handed = |i: usize, tid: u32| !case.tids[2 * i..2 * i + 2].contains(&tid);
    // own events in order; handed over ones as a multiset
    let mut next = vec![0usize; n];
    let mut foreign: Vec<(usize, usize)> = vec![];
    for i in 0..n {
        for (k, r) in resolved[i].iter().enumerate() {
            if handed(i, r.2) {
                foreign.push((i, k));
            }
        }
    }
    let mut buf = String::new();
    for (pos, e) in d.iter_full().enumerate() {
        buf.clear();
        buf.push_str(&e.label);
        for a in &e.additional_data {
            buf.push('\x1E');
            buf.push_str(a);
        }
        let same = |w: &(std::rc::Rc<str>, std::rc::Rc<str>, u32, &Want)| {
            *w.0 == *e.event_kind
                && *w.1 == *buf
                && w.2 == e.thread_id
                && match (w.3, &e.payload) {
                    (Want::Integer(v), EventPayload::Integer(x)) => v == x,
                    (Want::Instant, EventPayload::Timestamp(Timestamp::Instant(_))) => true,
                    (Want::Interval, EventPayload::Timestamp(Timestamp::Interval { start, end })) => start <= end,
                    _ => false,
                }
        };
        let Some(owner) = case.tids.iter().position(|t| *t == e.thread_id).map(|k| k / 2).filter(|o| *o < n) else {
            return Err(format!("event {pos} has a thread id nobody used: {e:?}"));
        };
        while next[owner] < resolved[owner].len() && handed(owner, resolved[owner][next[owner]].2) {
            next[owner] += 1;
        }
        if next[owner] < resolved[owner].len() && same(&resolved[owner][next[owner]]) {
            next[owner] += 1;
            continue;
        }
        if let Some(k) = foreign.iter().position(|(i, k)| same(&resolved[*i][*k])) {
            foreign.remove(k);
            continue;
        }
        return Err(format!(
            "event {pos} is {e:?}; the next event of its thread is {:?}",
            resolved[owner].get(next[owner])
        ));
    }
    let types = |w: &Want| std::mem::discriminant(w);
    let kinds: std::collections::HashSet<_> = want.iter().flatten().map(|r| types(&r.want)).collect();
    let busy = want.iter().filter(|w| !w.is_empty()).count();
    ctx.class_if(busy >= 2, "several threads");
    ctx.class_if(total > 8192, "several event pages");
    ctx.class_if(!mapped.is_empty(), "virtual ids");
    ctx.class_if((0..n).any(|i| resolved[i].iter().any(|r| handed(i, r.2))), "finished by another thread");
    ctx.count("events", total as u64);
    ctx.nontrivial_if(total >= 3 && (kinds.len() >= 2 || busy >= 2));
    Ok(())
}
