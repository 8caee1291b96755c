//! C24: hardware counters, on a simulated machine.
use crate::driver::*;
use crate::hw::{self, Broken, Events, Machine, Truth, What};
use analyzeme::{EventPayload, ProfilingData, Timestamp};
use measureme::counters::Counter;
use measureme::{DetachedTiming, EventId, Profiler, StringId, TimingGuard};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    Run { user: u64, irqs: u16, exceptions: u16, kernel: u32, cpu: bool },
    Instant,
    Open,
    Close(u8),
    CloseAs(u8),
    OpenDetached,
    CloseDetached(u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Cpu {
    Real,
    Amd(u16, u8),
    Intel(u16, u8),
    Other([u8; 12], u32),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Fault {
    Open(i32),
    Map,
    NoAccess(bool),
    NoRegister,
    Width(u16),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub cpu: Cpu,
    /// one of NAMES or something else
    pub name: String,
    pub start: Vec<i64>,
    pub index: Vec<u32>,
    pub jitter: u8,
    /// a fault of: 0 the instruction counter, 1 the correction, 2 the probe for SpecLockMap
    pub fault: Option<(u8, Fault)>,
    pub ops: Vec<Op>,
    /// make a second counter afterwards
    #[serde(default)]
    pub again: bool,
}

const NAMES: [&str; 4] = ["instructions:u", "instructions-minus-irqs:u", "instructions-minus-r0420:u", "wall-time"];

/// Processors with hardware interrupt counts by the documentation ("since Sandy Bridge").
const INTEL_NEW: [u8; 40] = [
    42, 45, 58, 62, 60, 61, 63, 69, 70, 71, 79, 86, 78, 85, 94, 142, 158, 102, 106, 108, 125, 126, 140, 141, 143, 151, 154, 165, 166, 167, 168, 170, 172,
    173, 175, 183, 186, 190, 191, 207,
];
const INTEL_OLD: [u8; 24] = [15, 22, 23, 29, 26, 30, 31, 46, 37, 44, 47, 28, 38, 39, 53, 54, 55, 74, 77, 90, 93, 76, 87, 133];

fn version(family: u16, model: u8) -> u32 {
    let (base, ext) = if family < 15 { (family as u32, 0) } else { (15, family as u32 - 15) };
    ext << 20 | ((model as u32 >> 4) << 16) | base << 8 | ((model as u32 & 15) << 4) | 3
}

struct Known {
    events: Events,
    cpuid: Option<([u8; 12], u32)>,
    /// must instructions, minus-irqs and minus-r0420 be available?
    must: [bool; 3],
}

fn known(cpu: &Cpu) -> Known {
    match cpu {
        Cpu::Real => {
            #[allow(unused_unsafe)]
            let v = unsafe { std::arch::x86_64::__cpuid(0) };
            let amd = v.ebx == u32::from_le_bytes(*b"Auth");
            Known { events: if amd { Events::AmdZen } else { Events::IntelNew }, cpuid: None, must: [true, false, false] }
        }
        Cpu::Amd(f, m) => {
            let events = match f {
                0..=22 => Events::AmdOld,
                _ => Events::AmdZen,
            };
            // K8 is family 15; there is no family 19.
            let ok = *f >= 15 && *f != 19;
            let zen = *f == 23 && [1, 17, 24, 8, 49, 113].contains(m);
            Known { events, cpuid: Some((*b"AuthenticAMD", version(*f, *m))), must: [ok, ok, zen] }
        }
        Cpu::Intel(f, m) => {
            let new = *f == 6 && INTEL_NEW.contains(m);
            let old = *f < 6 || *f == 15 || *f == 6 && (INTEL_OLD.contains(m) || *m < 42);
            Known {
                events: if old { Events::IntelOld } else { Events::IntelNew },
                cpuid: Some((*b"GenuineIntel", version(*f, *m))),
                must: [true, new, false],
            }
        }
        Cpu::Other(v, version) => Known { events: Events::Other, cpuid: Some((*v, *version)), must: [false; 3] },
    }
}

type B = (Truth, Truth);

fn br<R>(m: &mut Machine, f: impl FnOnce() -> R) -> (R, B) {
    let a = m.truth;
    let r = m.with(f);
    (r, (a, m.truth))
}

/// The range of the counter reading `c` between the two moments.
fn range(c: usize, b: &B) -> (i128, i128) {
    let i = |t: &Truth| t.instructions() as i128;
    let q = |t: &Truth| match c {
        0 => 0,
        1 => t.irqs as i128,
        _ => (t.irqs + t.exceptions) as i128,
    };
    (i(&b.0) - q(&b.1), i(&b.1) - q(&b.0))
}

fn op() -> BoxedStrategy<Op> {
    let user = prop_oneof![2 => 0u64..5000, 2 => any::<u32>().prop_map(u64::from), 1 => (0u32..41).prop_map(|s| 1u64 << s), 1 => (0u64..16, -3i64..3).prop_map(|(a, b)| ((a << 30) as i64 + b).max(0) as u64)];
    prop_oneof![
        6 => (user, prop_oneof![3 => 0u16..4, 1 => any::<u16>()], prop_oneof![3 => 0u16..4, 1 => any::<u16>()], prop_oneof![1 => Just(0u32), 1 => any::<u32>()], any::<bool>())
            .prop_map(|(user, irqs, exceptions, kernel, cpu)| Op::Run { user, irqs, exceptions, kernel, cpu }),
        3 => Just(Op::Instant),
        3 => Just(Op::Open),
        2 => prop_oneof![2 => Just(0u8), 1 => any::<u8>()].prop_map(Op::Close),
        1 => any::<u8>().prop_map(Op::CloseAs),
        1 => Just(Op::OpenDetached),
        1 => any::<u8>().prop_map(Op::CloseDetached),
    ]
    .boxed()
}

fn only_cpu() -> Option<Cpu> {
    context().map(|c| serde_json::from_str(&c).expect("harness: VH_CONTEXT"))
}

fn cpu() -> BoxedStrategy<Cpu> {
    if let Some(c) = only_cpu() {
        return Just(c).boxed();
    }
    if !hw::can_cpuid() {
        return Just(Cpu::Real).boxed();
    }
    prop_oneof![
        2 => Just(Cpu::Real),
        3 => (prop_oneof![2 => 15u16..30, 1 => 0u16..15, 1 => 0u16..271, 2 => Just(23)], prop_oneof![1 => any::<u8>(), 1 => prop::sample::select(vec![1u8, 17, 24, 8, 49, 113])]).prop_map(|(f, m)| Cpu::Amd(f, m)),
        4 => prop_oneof![2 => prop::sample::select(INTEL_NEW.to_vec()), 1 => prop::sample::select(INTEL_OLD.to_vec()), 1 => any::<u8>()].prop_map(|m| Cpu::Intel(6, m)),
        1 => (0u16..271, any::<u8>()).prop_map(|(f, m)| Cpu::Intel(f, m)),
        1 => (prop_oneof![Just(*b"HygonGenuine"), Just(*b"CentaurHauls"), any::<[u8; 12]>()], any::<u32>()).prop_map(|(v, x)| Cpu::Other(v, x)),
    ]
    .boxed()
}

pub struct P;
impl Prop for P {
    type Case = Case;
    const ID: &'static str = "C24";
    const RULE: &'static str = "The library's own counter code runs on a simulated machine: perf_event_open, rdpmc and (where the processor allows it) cpuid are answered by the harness from generated processors, counter registers (any 48-bit start, any register number) and program runs (user and kernel instructions, interrupts, exceptions, processor changes). Every recorded time must be the simulated count since the counter was made, exactly where the machine stands still during a call. Broken counters (refused, not mappable, no access, no register, other width) must give an error. Non-trivial: a counter with at least two events and a run between them, or an injected fault.";
    const ASSUMPTIONS: &'static [&'static str] = &[
        "the simulation stands for the processor and the kernel: reading the counter register gives the low 48 bits of a count that starts anywhere; the kernel does not move the counter to another register",
        "counters are used on the thread that made them (documented limitation)",
        "an unknown processor that is neither in the documentation nor in the lists of the code may be refused or taken",
    ];
    fn cases(t: Tier) -> u32 {
        t.pick(120_000, 6_000_000)
    }
    fn strategy(_t: Tier) -> BoxedStrategy<Case> {
        let start = prop_oneof![
            3 => Just(-(1i64 << 47) + 1),
            2 => -(1i64 << 47)..(1 << 46),
            2 => (0u32..16, -4000i64..4000).prop_map(|(s, d)| ((s as i64 - 8) << 32) + d),
            1 => -100_000i64..10,
        ];
        let index = prop_oneof![
            2 => Just(vec![1u32, 2, 3, 4]),
            1 => Just(vec![(1u32 << 30) + 1, 1, 2, 3]),
            2 => proptest::collection::hash_set(prop_oneof![2 => 1u32..9, 1 => (1u32 << 30) + 1..(1 << 30) + 5], 4).prop_map(|s| s.into_iter().collect()),
        ];
        let fault = (
            0u8..3,
            prop_oneof![
                2 => prop::sample::select(vec![libc::EACCES, libc::ENOENT, libc::ENOSYS, libc::EMFILE, libc::EPERM, libc::EINVAL, libc::ENODEV]).prop_map(Fault::Open),
                1 => Just(Fault::Map),
                1 => any::<bool>().prop_map(Fault::NoAccess),
                1 => Just(Fault::NoRegister),
                1 => prop::sample::select(vec![0u16, 1, 16, 32, 40, 47, 49, 56, 63, 64]).prop_map(Fault::Width),
            ],
        );
        let name = prop_oneof![
            3 => Just("instructions:u".to_string()),
            5 => Just("instructions-minus-irqs:u".to_string()),
            3 => Just("instructions-minus-r0420:u".to_string()),
            1 => prop::sample::select(vec!["", "instructions", "instructions:k", "instructions:U", "wall-time:u", "Wall-time", "wall-time ", " instructions:u", "instructions-minus-irqs", "instructions-minus-r0420", "irqs:u", "cycles:u", "instructions:u,wall-time", "r0420:u"]).prop_map(String::from),
            1 => "[a-z:0-9-]{0,30}",
        ];
        (
            cpu(),
            name,
            proptest::collection::vec(start, 4),
            index,
            prop_oneof![3 => Just(0u8), 1 => 10u8..=255],
            prop_oneof![4 => Just(None).boxed(), 1 => fault.prop_map(Some).boxed()],
            proptest::collection::vec(op(), 0..30),
            any::<u8>().prop_map(|x| x < 80),
        )
            .prop_map(|(cpu, name, start, index, jitter, fault, ops, again)| Case { cpu, name, start, index, jitter, fault, ops, again })
            .boxed()
    }
    fn fixed(_t: Tier) -> Vec<Case> {
        let ops = vec![
            Op::Instant,
            Op::Open,
            Op::Run { user: 5_000_000_000, irqs: 17, exceptions: 5, kernel: 12345, cpu: false },
            Op::OpenDetached,
            Op::Run { user: 1000, irqs: 3, exceptions: 2, kernel: 0, cpu: true },
            Op::Close(0),
            Op::CloseDetached(0),
            Op::Instant,
        ];
        let mut cpus = vec![only_cpu().unwrap_or(Cpu::Real)];
        if only_cpu().is_none() && hw::can_cpuid() {
            for f in 0..=30 {
                for m in 0..=255 {
                    cpus.push(Cpu::Amd(f, m));
                    if f <= 16 {
                        cpus.push(Cpu::Intel(f, m));
                    }
                }
            }
        }
        let mut v = vec![];
        for c in cpus {
            for n in &NAMES[..3] {
                // the model of AMD families below 15 has four bits only
                v.push(Case { cpu: c.clone(), name: n.to_string(), start: vec![-(1 << 47) + 1; 4], index: vec![1, 2, 3, 4], jitter: 0, fault: None, ops: ops.clone(), again: false });
            }
        }
        v
    }
    fn contexts() -> Vec<String> {
        let mut v = vec![Cpu::Real];
        if hw::can_cpuid() {
            v.extend([Cpu::Amd(23, 1), Cpu::Amd(25, 33), Cpu::Amd(21, 2)]);
            v.extend([158, 60, 42, 15, 207].map(|m| Cpu::Intel(6, m)));
        }
        v.iter().map(|c| serde_json::to_string(c).unwrap()).collect()
    }
    fn check(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
        once(case, ctx)?;
        if case.again {
            // another counter in the same process
            let mut other = case.clone();
            other.start.iter_mut().for_each(|s| *s = if *s > 0 { *s - 98_765 } else { *s + 98_765 });
            other.index.rotate_left(1);
            ctx.class("second counter");
            once(&other, ctx).map_err(|e| format!("second counter of the process: {e}"))?;
        }
        Ok(())
    }
}

fn once(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
    let k = known(&case.cpu);
    if k.cpuid.is_some() && !hw::can_cpuid() {
        ctx.class("processor cannot be simulated here");
        return Ok(());
    }
    let kind = NAMES[..3].iter().position(|n| *n == case.name);
    let mut m = Machine::new();
    m.events = k.events;
    m.cpuid = k.cpuid;
    m.start = case.start.clone();
    m.index = case.index.clone();
    m.jitter = case.jitter as u64;
    let correction = if kind == Some(2) { What::Raw0420 } else { What::Irqs };
    let mut essential = false;
    if let Some((which, f)) = &case.fault {
        let b = match f {
            Fault::Open(e) => Broken::Open(*e),
            Fault::Map => Broken::Map,
            Fault::NoAccess(l) => Broken::NoAccess(*l),
            Fault::NoRegister => Broken::NoRegister,
            Fault::Width(w) => Broken::Width(*w),
        };
        let what = [What::Instructions, correction, What::SpecLock][*which as usize % 3];
        m.broken.push((what, b));
        essential = what == What::Instructions || what == correction && kind != Some(0);
    }
    let dir = ctx.dir();
    let stem = dir.0.join("h");
    let name = case.name.clone();
    let (r, made) = br(&mut m, || catch(|| Counter::by_name(&name)));
    let r = r.map_err(|p| format!("asking for the counter {:?} panics: {p}", case.name))?;
    if let Some(e) = m.errors.first() {
        if e.starts_with("harness") {
            panic!("{e}");
        }
        return Err(format!("while making the counter, {e}"));
    }
    let Some(kind) = kind else {
        ensure!(case.name == "wall-time" || r.is_err(), "there is no counter {:?}, but it is given out", case.name);
        return Ok(());
    };
    let c = match r {
        Err(e) => {
            if k.must[kind] && !essential {
                return Err(format!("{:?} is refused on {:?}, where it is supported: {e}", case.name, case.cpu));
            }
            ensure_eq!(m.open_files(), 0, "files left open after the counter was refused");
            if let (Some((_, Fault::Open(n))), true) = (&case.fault, essential && k.must[kind]) {
                // The cause is named, by number or text.
                let why = std::io::Error::from_raw_os_error(*n).to_string();
                let why = why.split(" (os error").next().unwrap();
                let msg = e.to_string();
                let number = msg.split(|c: char| !c.is_ascii_digit()).any(|w| w == n.to_string());
                ensure!(number || msg.contains(why), "perf_event_open fails with {why:?} ({n}), but the counter is refused for {msg:?}");
            }
            ctx.class("refused");
            ctx.nontrivial_if(case.fault.is_some());
            return Ok(());
        }
        Ok(c) => c,
    };
    // A counter that cannot work must not be given out (the times below would be wrong, but
    // there may be none).
    if let Some((_, b)) = m.broken.first().filter(|_| essential) {
        ensure!(matches!(b, Broken::Width(_)), "{:?} is given out although the machine does not provide it ({b:?})", case.name);
    }
    let p = match Profiler::with_counter(&stem, c) {
        Ok(p) => p,
        Err(e) => return Err(format!("no profiler: {e}")),
    };
    let mut guards: Vec<(TimingGuard, B, u32)> = vec![];
    let mut detached: Vec<(DetachedTiming, B, u32)> = vec![];
    let mut want: std::collections::BTreeMap<u32, (B, Option<B>)> = Default::default();
    let mut next = 0u32;
    let e = EventId::from_virtual(StringId::new_virtual(9_000_000u32));
    let mut runs = false;
    let mut room = 1u64 << 45;
    let mut ops = case.ops.clone();
    ops.extend((0..case.ops.len()).flat_map(|_| [Op::Close(0), Op::CloseDetached(0)]));
    for o in &ops {
        let id = StringId::new_virtual(next);
        match o {
            Op::Run { user, irqs, exceptions, kernel, cpu } => {
                let t = Truth { user: *user, irqs: *irqs as u64, exceptions: *exceptions as u64, kernel: *kernel as u64 };
                if t.instructions() < room {
                    room -= t.instructions();
                    m.advance(t, *cpu as i64);
                    runs |= !want.is_empty() || !guards.is_empty();
                }
            }
            Op::Instant => {
                let (_, b) = br(&mut m, || p.record_instant_event(id, e, 1));
                want.insert(next, (b, None));
                next += 1;
            }
            Op::Open => {
                let (g, b) = br(&mut m, || p.start_recording_interval_event(id, e, 1));
                guards.push((g, b, next));
                next += 1;
            }
            Op::OpenDetached => {
                let (g, b) = br(&mut m, || p.start_recording_interval_event_detached(id, e, 1));
                detached.push((g, b, next));
                next += 1;
            }
            Op::Close(i) | Op::CloseAs(i) if !guards.is_empty() => {
                let n = guards.len() - 1 - *i as usize % guards.len();
                let (g, s, id) = guards.remove(n);
                let (_, b) = br(&mut m, || match o {
                    Op::Close(_) => drop(g),
                    _ => g.finish_with_override_event_id(e),
                });
                want.insert(id, (s, Some(b)));
            }
            Op::CloseDetached(i) if !detached.is_empty() => {
                let n = detached.len() - 1 - *i as usize % detached.len();
                let (g, s, id) = detached.remove(n);
                let (_, b) = br(&mut m, || p.finish_recording_interval_event(g));
                want.insert(id, (s, Some(b)));
            }
            Op::Close(_) | Op::CloseAs(_) | Op::CloseDetached(_) => {}
        }
    }
    for i in 0..next {
        let s = p.alloc_string(&i.to_string()[..]);
        p.map_virtual_to_concrete_string(StringId::new_virtual(i), s);
    }
    drop(guards);
    drop(p);
    if let Some(e) = m.errors.first() {
        return Err(e.to_string());
    }
    ensure_eq!(m.open_files(), 0, "counter files left open after the profiler is gone");
    let bytes = std::fs::read(stem.with_extension("mm_profdata")).map_err(|e| format!("no profile: {e}"))?;
    let d = match catch(|| ProfilingData::from_paged_buffer(bytes.clone(), None)) {
        Ok(Ok(d)) => d,
        Ok(Err(e)) => return Err(format!("the profile cannot be read: {e}")),
        Err(m) => return Err(format!("the profile cannot be read: {m}")),
    };
    let pages = crate::codec::parse_pages(&bytes[8..])?;
    let [data, index] = [1u8, 2].map(|t| crate::codec::join_pages(&bytes[8..], &pages, t));
    let table = decodeme::stringtable::StringTable::new(data, index, None).map_err(|e| format!("string table does not load: {e}"))?;
    let meta = table.get_metadata().to_string().into_owned();
    let meta: serde_json::Value = serde_json::from_str(&meta).map_err(|e| format!("the metadata {meta:?} is not JSON: {e}"))?;
    ensure_eq!(meta["counter"]["name"], serde_json::json!(case.name), "counter name in the metadata");
    ensure_eq!(meta["counter"]["units"], serde_json::json!([["instructions", 1]]), "counter units in the metadata");
    let start = d.metadata().start_time;
    ensure_eq!(d.num_events(), want.len(), "number of events");
    let (c_lo, c_hi) = range(kind, &made);
    let fits = |t: std::time::SystemTime, b: &B, what: &str| -> Result<(), String> {
        let t = t.duration_since(start).map_err(|_| format!("{what} lies before the start"))?.as_nanos() as i128;
        let (lo, hi) = range(kind, b);
        let (lo, hi) = (lo - c_hi, hi - c_lo);
        ensure!(lo <= t && t <= hi, "{what} is recorded as {t}, but {} counts {lo} to {hi} since it was made", case.name);
        Ok(())
    };
    for ev in d.iter_full() {
        let id: u32 = ev.event_kind.parse().map_err(|_| format!("unknown event {ev:?}"))?;
        match (want.get(&id), &ev.payload) {
            (Some((b, None)), EventPayload::Timestamp(Timestamp::Instant(t))) => fits(*t, b, "an instant")?,
            (Some((a, Some(b))), EventPayload::Timestamp(Timestamp::Interval { start, end })) => {
                fits(*start, a, "the start of an interval")?;
                fits(*end, b, "the end of an interval")?;
            }
            _ => return Err(format!("unknown event {ev:?}")),
        }
    }
    ctx.count("readings of registers", m.reads);
    ctx.class(["instructions", "minus irqs", "minus r0420"][kind]);
    ctx.class_if(m.cpuid.is_some(), "simulated processor");
    ctx.class_if(case.jitter > 0, "the program goes on between readings");
    ctx.nontrivial_if(want.len() >= 2 && runs || case.fault.is_some());
    Ok(())
}
