//! Concurrent writers. A case holds the operations of each thread and the schedule (at which lock
//! operation to switch to which thread), so a failing schedule shrinks with everything else.
//! The library is built against a stand-in for parking_lot whose locks shuttle schedules. A part
//! of the cases runs on real threads instead.
use crate::driver::*;
use measureme::{
    EventId, EventIdBuilder, PageTag, Profiler, SerializableString, SerializationSink, SerializationSinkBuilder,
    StringComponent, StringId,
};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::io::{Read, Seek, SeekFrom, Write};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::Duration;

const MAX: usize = 256 * 1024;
const MIN: usize = 128 * 1024;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    /// stream, size, whether the write callback lets others run
    Atomic(u8, u32, bool),
    Bytes(u8, u32),
    Std(u8, u32),
    Flush(u8),
    /// length of the text, whether serialising it lets others run
    Str(u16, bool),
    Comp(u8),
    /// virtual id mapped to a string of the pool; used first if the flag is set
    Map(u8, bool),
    Bulk(u8, u8),
    Instant(u8, u8),
    Integer(u8, u8),
    Open(u8, u8),
    Close,
    Event2(u8, u8, u8),
    Yield,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub profiler: bool,
    pub memory: bool,
    /// real threads instead of a chosen schedule
    pub real: bool,
    /// explore this many schedules in depth-first order instead of the one given
    pub dfs: u32,
    /// data already written per stream (sinks) or events already recorded (profiler, first entry)
    pub prefill: Vec<u32>,
    pub threads: Vec<Vec<Op>>,
    /// the main thread gives up its handles before the threads end
    pub let_go: bool,
    /// (decisions to stay on a thread, which runnable thread is next)
    pub sched: Vec<(u8, u8)>,
}

// ---- running under shuttle or on real threads

static BLIND: AtomicBool = AtomicBool::new(false);

#[cfg(feature = "shim")]
fn controlled() -> bool {
    parking_lot::controlled()
}
#[cfg(not(feature = "shim"))]
fn controlled() -> bool {
    false
}

/// Whether the lock that is held during a callback is one we control (a switch there could block for
/// good otherwise). Found out once, before anything else runs.
#[cfg(feature = "shim")]
fn may_switch() -> bool {
    static KNOWN: std::sync::OnceLock<bool> = std::sync::OnceLock::new();
    *KNOWN.get_or_init(|| {
        let found = Arc::new(AtomicBool::new(false));
        let f = found.clone();
        std::thread::spawn(move || {
            let case = Case { threads: vec![], prefill: vec![0; 3], memory: true, profiler: false, real: false, let_go: false, dfs: 0, sched: vec![] };
            sched::run(&case, Arc::default(), move || {
                let sink = SerializationSinkBuilder::new_in_memory().new_sink(PageTag::Events);
                let before = parking_lot::lock_count();
                sink.write_atomic(1, |_| f.store(parking_lot::lock_count() > before, Ordering::Relaxed));
            });
        })
        .join()
        .is_ok_and(|_| found.load(Ordering::Relaxed))
    })
}

fn pause() {
    #[cfg(feature = "shim")]
    if controlled() {
        if may_switch() {
            shuttle::thread::yield_now();
        }
        return;
    }
    std::thread::yield_now();
}

enum Handle {
    #[cfg(feature = "shim")]
    S(shuttle::thread::JoinHandle<()>),
    R(std::thread::JoinHandle<()>),
}
fn spawn(f: impl FnOnce() + Send + 'static) -> Handle {
    #[cfg(feature = "shim")]
    if controlled() {
        return Handle::S(shuttle::thread::spawn(f));
    }
    Handle::R(std::thread::spawn(f))
}
fn join(h: Handle) {
    let r = match h {
        #[cfg(feature = "shim")]
        Handle::S(h) => h.join(),
        Handle::R(h) => h.join(),
    };
    if let Err(p) = r {
        std::panic::resume_unwind(p);
    }
}

#[cfg(feature = "shim")]
mod sched {
    use shuttle::scheduler::{Schedule, Scheduler, Task, TaskId};
    use std::sync::atomic::{AtomicU64, Ordering};
    use std::sync::Arc;

    pub struct Given {
        pub plan: Vec<(u8, u8)>,
        pub at: usize,
        pub stay: u8,
        pub done: bool,
        pub switches: Arc<AtomicU64>,
    }
    impl Scheduler for Given {
        fn new_execution(&mut self) -> Option<Schedule> {
            if std::mem::replace(&mut self.done, true) {
                return None;
            }
            self.at = 0;
            self.stay = self.plan.first().map_or(0, |p| p.0);
            Some(Schedule::new(0))
        }
        fn next_task(&mut self, run: &[&Task], cur: Option<TaskId>, yielding: bool) -> Option<TaskId> {
            let here = cur.and_then(|c| run.iter().position(|t| t.id() == c));
            if run.len() == 1 {
                return Some(run[0].id());
            }
            // After the plan: keep going, but let others run when a thread blocks or yields.
            let Some(&(_, pick)) = self.plan.get(self.at) else {
                if let (Some(h), false) = (here, yielding) {
                    return Some(run[h].id());
                }
                let next = here.map_or(0, |h| (h + 1) % run.len());
                return Some(run[next].id());
            };
            if self.stay > 0 {
                if let Some(h) = here {
                    self.stay -= 1;
                    return Some(run[h].id());
                }
            }
            self.at += 1;
            self.stay = self.plan.get(self.at).map_or(0, |p| p.0);
            let t = run[pick as usize % run.len()].id();
            if Some(t) != cur {
                self.switches.fetch_add(1, Ordering::Relaxed);
            }
            Some(t)
        }
        fn next_u64(&mut self) -> u64 {
            0
        }
    }

    pub fn run(case: &super::Case, switches: Arc<AtomicU64>, f: impl Fn() + Send + Sync + 'static) -> usize {
        use shuttle::{Config, FailurePersistence, Runner};
        let mut c = Config::new();
        c.stack_size = 1 << 18;
        c.failure_persistence = FailurePersistence::None;
        c.silence_warnings = true;
        c.ungraceful_shutdown_config.immediately_return_on_panic = true;
        parking_lot::set_controlled(true);
        let n = if case.dfs > 0 {
            Runner::new(shuttle::scheduler::DfsScheduler::new(Some(case.dfs as usize), false), c).run(f)
        } else {
            let s = Given { plan: case.sched.clone(), at: 0, stay: 0, done: false, switches };
            Runner::new(s, c).run(f)
        };
        parking_lot::set_controlled(false);
        n
    }
}

// ---- streams

const TAGS: [PageTag; 3] = [PageTag::Events, PageTag::StringData, PageTag::StringIndex];

/// Byte `i` of a write; eight bytes tell all writes apart.
fn byte(t: usize, op: usize, i: usize) -> u8 {
    let mut x = ((t as u64) << 48 | (op as u64) << 32 | (i as u64 >> 3)).wrapping_add(0x9E37_79B9_7F4A_7C15);
    x = (x ^ (x >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    x = (x ^ (x >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    x ^= x >> 31;
    (x >> (8 * (i & 7))) as u8
}

#[derive(Clone, Debug)]
struct W {
    thread: usize,
    op: usize,
    stream: usize,
    len: usize,
    addr: Option<u64>,
}

fn memfd() -> std::fs::File {
    use std::os::fd::FromRawFd;
    unsafe {
        let fd = libc::memfd_create(c"c02".as_ptr(), libc::MFD_CLOEXEC);
        assert!(fd >= 0, "harness: memfd");
        std::fs::File::from_raw_fd(fd)
    }
}

fn parse(bytes: &[u8]) -> Result<[Vec<u8>; 3], String> {
    let mut out: [Vec<u8>; 3] = Default::default();
    let mut p = 0;
    while p < bytes.len() {
        if bytes.len() - p < 5 || bytes[p] > 2 {
            return Err(format!("the storage is not a sequence of pages: bad page head at {p}"));
        }
        let n = u32::from_le_bytes(bytes[p + 1..p + 5].try_into().unwrap()) as usize;
        if n == 0 || n > bytes.len() - p - 5 {
            return Err(format!("the storage is not a sequence of pages: bad page size {n} at {p}"));
        }
        out[bytes[p] as usize].extend_from_slice(&bytes[p + 5..p + 5 + n]);
        p += 5 + n;
    }
    Ok(out)
}

fn do_write(sink: &SerializationSink, w: &mut W, op: &Op) {
    let (t, o, len) = (w.thread, w.op, w.len);
    match op {
        Op::Atomic(_, _, wait) => {
            let a = sink.write_atomic(len, |b| {
                assert_eq!(b.len(), len, "size of the slice handed to the callback");
                let half = b.len() / 2;
                for (i, x) in b[..half].iter_mut().enumerate() {
                    *x = byte(t, o, i);
                }
                if *wait {
                    pause();
                }
                for (i, x) in b[half..].iter_mut().enumerate() {
                    *x = byte(t, o, half + i);
                }
            });
            w.addr = Some(a.0);
        }
        Op::Bytes(..) => {
            let v: Vec<u8> = (0..len).map(|i| byte(t, o, i)).collect();
            w.addr = Some(sink.write_bytes_atomic(&v).0);
        }
        _ => {
            let v: Vec<u8> = (0..len).map(|i| byte(t, o, i)).collect();
            let mut s = sink.as_std_write();
            let k = s.write(&v).expect("std write");
            assert!(k == len, "std write of {len} bytes takes {k}");
        }
    }
}

fn streams(case: &Case) {
    let file = memfd();
    let mut back = file.try_clone().expect("harness: dup");
    let builder = if case.memory {
        SerializationSinkBuilder::new_in_memory()
    } else {
        SerializationSinkBuilder::new_from_file(file).expect("builder")
    };
    let sinks: Arc<Vec<SerializationSink>> = Arc::new(TAGS.iter().map(|t| builder.new_sink(*t)).collect());
    drop(builder);
    let log: Arc<Mutex<Vec<W>>> = Arc::default();
    let n = case.threads.len();
    for (s, len) in case.prefill.iter().enumerate().take(3) {
        if *len > 0 {
            let mut w = W { thread: n, op: s, stream: s, len: *len as usize, addr: None };
            do_write(&sinks[s], &mut w, &Op::Atomic(0, 0, false));
            log.lock().unwrap().push(w);
        }
    }
    let hs: Vec<Handle> = (0..n)
        .map(|t| {
            let (ops, sinks, log) = (case.threads[t].clone(), sinks.clone(), log.clone());
            spawn(move || {
                for (o, op) in ops.iter().enumerate() {
                    let (s, len) = match *op {
                        Op::Atomic(s, l, _) | Op::Bytes(s, l) => (s, l),
                        // at least 8 bytes, to be told apart
                        Op::Std(s, l) => (s, l.max(8)),
                        Op::Flush(s) => {
                            sinks[s as usize % 3].as_std_write().flush().expect("flush");
                            continue;
                        }
                        _ => {
                            pause();
                            continue;
                        }
                    };
                    let stream = s as usize % 3;
                    let mut w = W { thread: t, op: o, stream, len: len as usize, addr: None };
                    do_write(&sinks[stream], &mut w, op);
                    log.lock().unwrap().push(w);
                }
                drop(sinks);
            })
        })
        .collect();
    let mut kept = Some(sinks);
    if case.let_go && !case.memory {
        kept = None;
    }
    for h in hs {
        join(h);
    }
    let log = Arc::try_unwrap(log).expect("harness: log").into_inner().unwrap();
    let got: [Vec<u8>; 3] = if case.memory {
        let sinks = Arc::try_unwrap(kept.unwrap()).unwrap_or_else(|_| panic!("harness: sinks are shared"));
        let v: Vec<Vec<u8>> = sinks.into_iter().map(|s| s.into_bytes()).collect();
        v.try_into().unwrap()
    } else {
        drop(kept);
        let mut bytes = vec![];
        back.seek(SeekFrom::Start(0)).unwrap();
        back.read_to_end(&mut bytes).expect("harness: read");
        match parse(&bytes) {
            Ok(g) => g,
            Err(m) => panic!("{m}"),
        }
    };
    if let Err(m) = judge(&got, &log) {
        panic!("{m}");
    }
}

/// Every write exactly once, contiguous, at its address; each thread's writes in order.
fn judge(got: &[Vec<u8>; 3], log: &[W]) -> Result<(), String> {
    for s in 0..3 {
        let ws: Vec<&W> = log.iter().filter(|w| w.stream == s).collect();
        let total: usize = ws.iter().map(|w| w.len).sum();
        ensure!(got[s].len() == total, "stream {s} holds {} bytes, {total} were written", got[s].len());
        let is = |w: &W, a: usize| a + w.len <= got[s].len() && got[s][a..a + w.len].iter().enumerate().all(|(i, b)| *b == byte(w.thread, w.op, i));
        let mut covered: Vec<(usize, usize, &W)> = vec![];
        for w in &ws {
            if let Some(a) = w.addr {
                ensure!(a <= total as u64, "address {a} is outside of stream {s}");
                ensure!(is(w, a as usize), "the bytes of write {} of thread {} are not at the returned address {a} of stream {s}", w.op, w.thread);
                if w.len > 0 {
                    covered.push((a as usize, w.len, w));
                }
            }
        }
        covered.sort_by_key(|c| c.0);
        // What no address covers must be the writes without one.
        let mut free: Vec<&W> = ws.iter().copied().filter(|w| w.addr.is_none()).collect();
        let mut order: Vec<(usize, &W)> = vec![];
        let mut pos = 0;
        let mut it = covered.into_iter().peekable();
        while pos < total {
            match it.peek() {
                Some((a, len, w)) if *a == pos => {
                    order.push((pos, w));
                    pos += len;
                    it.next();
                }
                Some((a, _, w)) if *a < pos => {
                    return Err(format!("write {} of thread {} shares bytes at {a} of stream {s} with another", w.op, w.thread));
                }
                _ => {
                    let Some(k) = free.iter().position(|w| is(w, pos)) else {
                        return Err(format!("the bytes at {pos} of stream {s} are no write"));
                    };
                    let w = free.remove(k);
                    order.push((pos, w));
                    pos += w.len;
                }
            }
        }
        ensure!(it.next().is_none() && free.is_empty(), "a write to stream {s} is missing");
        let mut last: BTreeMap<usize, usize> = BTreeMap::new();
        for (_, w) in order {
            if let Some(o) = last.insert(w.thread, w.op) {
                ensure!(o < w.op, "writes {o} and {} of thread {} to stream {s} are out of order", w.op, w.thread);
            }
        }
    }
    Ok(())
}

// ---- whole profiles

struct Slow<'a>(&'a str);
impl SerializableString for Slow<'_> {
    fn serialized_size(&self) -> usize {
        self.0.len() + 1
    }
    fn serialize(&self, b: &mut [u8]) {
        let n = self.0.len();
        b[..n / 2].copy_from_slice(&self.0.as_bytes()[..n / 2]);
        pause();
        b[n / 2..n].copy_from_slice(&self.0.as_bytes()[n / 2..]);
        b[n] = 0xFF;
    }
}

struct SlowIter(std::vec::IntoIter<StringId>);
impl Iterator for SlowIter {
    type Item = StringId;
    fn next(&mut self) -> Option<StringId> {
        pause();
        self.0.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.0.size_hint()
    }
}
impl ExactSizeIterator for SlowIter {}

#[derive(Clone, PartialEq, Debug)]
struct Rec {
    kind: String,
    label: String,
    args: Vec<String>,
    /// None: interval; Some(None): instant
    payload: Option<Option<u64>>,
}

type Pool = Arc<Mutex<Vec<(StringId, String)>>>;

fn profile(case: &Case, stem: &std::path::Path) {
    let p = Arc::new(Profiler::new(stem).expect("profiler"));
    let n = case.threads.len();
    let pool: Pool = Arc::default();
    // the other ids of bulk mappings
    let bulk: Pool = Arc::default();
    let base = p.alloc_string("base");
    pool.lock().unwrap().push((base, "base".into()));
    let want: Arc<Mutex<BTreeMap<u32, Vec<Rec>>>> = Arc::default();
    let main_tid = 1000u32;
    let fill = case.prefill.first().copied().unwrap_or(0) % 8200;
    for i in 0..fill as u64 {
        p.record_integer_event(base, EventId::from_label(base), main_tid, i);
        want.lock().unwrap().entry(main_tid).or_default().push(Rec { kind: "base".into(), label: "base".into(), args: vec![], payload: Some(Some(i)) });
    }
    let hs: Vec<Handle> = (0..n)
        .map(|t| {
            let (ops, p, pool, bulk, want) = (case.threads[t].clone(), p.clone(), pool.clone(), bulk.clone(), want.clone());
            spawn(move || {
                let tid = t as u32 + 1;
                let mut mine: Vec<Rec> = vec![];
                let mut open = vec![];
                let get = |i: u8| -> (StringId, String) {
                    let g = pool.lock().unwrap();
                    g[(i as usize * 7) % g.len()].clone()
                };
                let put = |id: StringId, s: String| pool.lock().unwrap().push((id, s));
                for (o, op) in ops.iter().enumerate() {
                    match op {
                        Op::Str(len, slow) => {
                            let mut s = format!("t{t}o{o}_");
                            let pad = *len as usize;
                            s.extend((0..pad).map(|i| (b'a' + byte(t, o, i) % 26) as char));
                            let id = if *slow { p.alloc_string(&Slow(&s)) } else { p.alloc_string(&s[..]) };
                            put(id, s);
                        }
                        Op::Comp(a) => {
                            let (ia, sa) = get(*a);
                            let own = format!("c{t}o{o}");
                            let id = p.alloc_string(&[StringComponent::Ref(ia), StringComponent::Value(&own), StringComponent::Ref(ia)]);
                            put(id, format!("{sa}{own}{sa}"));
                        }
                        Op::Map(_, used_first) => {
                            let v = StringId::new_virtual((t * 100_000 + o * 1000) as u64);
                            let s = format!("v{t}o{o}");
                            if *used_first {
                                p.record_instant_event(v, EventId::from_virtual(v), tid);
                                mine.push(Rec { kind: s.clone(), label: s.clone(), args: vec![], payload: Some(None) });
                            }
                            let id = p.alloc_string(&s[..]);
                            p.map_virtual_to_concrete_string(v, id);
                            put(v, s);
                        }
                        Op::Bulk(_, k) => {
                            let s = format!("b{t}o{o}");
                            let id = p.alloc_string(&s[..]);
                            let ids: Vec<StringId> = (0..*k as u64).map(|i| StringId::new_virtual((t * 100_000 + o * 1000) as u64 + i)).collect();
                            let it = SlowIter(ids.clone().into_iter());
                            p.bulk_map_virtual_to_single_concrete_string(it, id);
                            for v in ids.iter().take(3) {
                                put(*v, s.clone());
                            }
                            bulk.lock().unwrap().extend(ids.into_iter().skip(3).map(|v| (v, s.clone())));
                        }
                        Op::Instant(k, l) => {
                            let ((ik, sk), (il, sl)) = (get(*k), get(*l));
                            p.record_instant_event(ik, EventId::from_label(il), tid);
                            mine.push(Rec { kind: sk, label: sl, args: vec![], payload: Some(None) });
                        }
                        Op::Integer(k, l) => {
                            let ((ik, sk), (il, sl)) = (get(*k), get(*l));
                            let v = (t * 1000 + o) as u64;
                            p.record_integer_event(ik, EventId::from_label(il), tid, v);
                            mine.push(Rec { kind: sk, label: sl, args: vec![], payload: Some(Some(v)) });
                        }
                        Op::Event2(k, l, a) => {
                            let ((ik, sk), (il, sl), (ia, sa)) = (get(*k), get(*l), get(*a));
                            let id = EventIdBuilder::new(&p).from_label_and_arg(il, ia);
                            p.record_instant_event(ik, id, tid);
                            mine.push(Rec { kind: sk, label: sl, args: vec![sa], payload: Some(None) });
                        }
                        Op::Open(k, l) => {
                            let ((ik, sk), (il, sl)) = (get(*k), get(*l));
                            let d = p.start_recording_interval_event_detached(ik, EventId::from_label(il), tid);
                            open.push((d, Rec { kind: sk, label: sl, args: vec![], payload: None }));
                        }
                        Op::Close => {
                            if let Some((d, r)) = open.pop() {
                                p.finish_recording_interval_event(d);
                                mine.push(r);
                            }
                        }
                        _ => pause(),
                    }
                }
                while let Some((d, r)) = open.pop() {
                    p.finish_recording_interval_event(d);
                    mine.push(r);
                }
                want.lock().unwrap().insert(tid, mine);
                drop(p);
            })
        })
        .collect();
    let mut kept = Some(p);
    if case.let_go {
        kept = None;
    }
    for h in hs {
        join(h);
    }
    if let Some(p) = kept.take() {
        // Every string resolves.
        let mut g = pool.lock().unwrap().clone();
        g.extend(bulk.lock().unwrap().iter().cloned());
        for (i, (id, s)) in g.iter().enumerate() {
            p.record_integer_event(*id, EventId::from_label(*id), main_tid, i as u64);
            want.lock().unwrap().entry(main_tid).or_default().push(Rec { kind: s.clone(), label: s.clone(), args: vec![], payload: Some(Some(i as u64)) });
        }
        drop(p);
    }
    let want = want.lock().unwrap();
    let mut got: BTreeMap<u32, Vec<Rec>> = BTreeMap::new();
    let data = match analyzeme::ProfilingData::new(stem) {
        Ok(d) => d,
        Err(e) => panic!("the profile does not load: {e}"),
    };
    for e in data.iter_full() {
        let payload = match e.payload {
            analyzeme::EventPayload::Integer(v) => Some(Some(v)),
            analyzeme::EventPayload::Timestamp(analyzeme::Timestamp::Instant(_)) => Some(None),
            _ => None,
        };
        got.entry(e.thread_id).or_default().push(Rec {
            kind: e.event_kind.to_string(),
            label: e.label.to_string(),
            args: e.additional_data.iter().map(|s| s.to_string()).collect(),
            payload,
        });
    }
    let empty = vec![];
    for tid in want.keys().chain(got.keys()) {
        let (w, g) = (want.get(tid).unwrap_or(&empty), got.get(tid).unwrap_or(&empty));
        if w != g {
            let k = w.iter().zip(g).position(|(a, b)| a != b).unwrap_or(w.len().min(g.len()));
            panic!(
                "events of thread {tid}: {} read, {} recorded; entry {k}: read {:?}, recorded {:?}",
                g.len(),
                w.len(),
                g.get(k),
                w.get(k)
            );
        }
    }
}

fn body(case: &Case, stem: &std::path::Path) {
    if case.profiler {
        profile(case, stem)
    } else {
        streams(case)
    }
}

fn text(p: Box<dyn std::any::Any + Send>) -> String {
    p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_else(|| "panic".into())
}

/// Runs `f` on a thread of its own; None if it does not come back.
fn timed(f: impl FnOnce() -> usize + Send + 'static) -> Option<Result<usize, String>> {
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::Builder::new()
        .stack_size(16 << 20)
        .spawn(move || {
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(text);
            let _ = tx.send(r);
        })
        .expect("harness: thread");
    rx.recv_timeout(Duration::from_secs(60)).ok()
}

pub struct P;
impl Prop for P {
    type Case = Case;
    const ID: &'static str = "C02";
    const RULE: &'static str = "2-4 threads with generated operations on three streams of one storage (callback writes that let others run half way, slices, std writes, flushes; sizes around the page limits, streams prefilled to just below them) or on one profiler (strings, composites, virtual ids, events), run under a generated schedule of all lock operations (shuttle over a stand-in for parking_lot), under bounded depth-first enumeration, or on real threads. Non-trivial: at least two threads write and, under a given schedule, at least three switches between threads were forced.";
    const ASSUMPTIONS: &'static [&'static str] = &[
        "the schedules switch threads at lock operations and inside callbacks only, as if memory were sequentially consistent; the cases on real threads have no control over the schedule",
    ];
    fn cases(t: Tier) -> u32 {
        t.pick(12_000, 1_500_000)
    }
    fn strategy(_t: Tier) -> BoxedStrategy<Case> {
        let size = || {
            prop_oneof![
                8 => 0u32..60,
                6 => 120u32..140,
                4 => 1u32..3000,
                2 => proptest::sample::select(vec![MIN as u32, MAX as u32, (MAX + MIN) as u32, 2 * MAX as u32]).prop_flat_map(|b| (-3i32..=3).prop_map(move |d| (b as i32 + d) as u32)),
            ]
        };
        let st = || prop_oneof![3 => Just(0u8), 1 => 0u8..3];
        let sink_op = prop_oneof![
            4 => (st(), size(), any::<bool>()).prop_map(|(s, z, w)| Op::Atomic(s, z, w)),
            4 => (st(), size()).prop_map(|(s, z)| Op::Bytes(s, z)),
            2 => (st(), size()).prop_map(|(s, z)| Op::Std(s, z)),
            2 => st().prop_map(Op::Flush),
        ];
        let prof_op = prop_oneof![
            4 => (prop_oneof![3 => 0u16..20, 1 => 100u16..200, 1 => any::<u16>()], any::<bool>()).prop_map(|(n, s)| Op::Str(n, s)),
            2 => any::<u8>().prop_map(Op::Comp),
            2 => (any::<u8>(), any::<bool>()).prop_map(|(a, b)| Op::Map(a, b)),
            2 => (any::<u8>(), any::<u8>()).prop_map(|(a, b)| Op::Bulk(a, b)),
            2 => (any::<u8>(), any::<u8>()).prop_map(|(a, b)| Op::Instant(a, b)),
            2 => (any::<u8>(), any::<u8>()).prop_map(|(a, b)| Op::Integer(a, b)),
            2 => (any::<u8>(), any::<u8>()).prop_map(|(a, b)| Op::Open(a, b)),
            2 => Just(Op::Close),
            1 => (any::<u8>(), any::<u8>(), any::<u8>()).prop_map(|(a, b, c)| Op::Event2(a, b, c)),
            1 => Just(Op::Yield),
        ];
        let fill = || prop_oneof![2 => Just(0u32), 1 => (0u32..200).prop_map(|d| MAX as u32 - d), 1 => (0u32..200).prop_map(|d| MIN as u32 - d), 1 => 1u32..5000];
        let sched = || proptest::collection::vec((prop_oneof![3 => Just(0u8), 2 => 0u8..4, 1 => 0u8..20], any::<u8>()), 0..60);
        let sinks = (
            any::<bool>(),
            prop_oneof![9 => Just(false), 1 => Just(true)],
            proptest::collection::vec(fill(), 3),
            proptest::collection::vec(proptest::collection::vec(sink_op, 1..8), 2..=4),
            any::<bool>(),
            sched(),
        )
            .prop_map(|(memory, real, prefill, threads, let_go, sched)| Case { profiler: false, memory, real, dfs: 0, prefill, threads, let_go, sched });
        let profs = (
            prop_oneof![9 => Just(false), 1 => Just(true)],
            prop_oneof![3 => Just(0u32), 1 => 8180u32..8195],
            proptest::collection::vec(proptest::collection::vec(prof_op, 1..12), 2..=4),
            any::<bool>(),
            sched(),
        )
            .prop_map(|(real, fill, threads, let_go, sched)| Case { profiler: true, memory: false, real, dfs: 0, prefill: vec![fill], threads, let_go, sched });
        prop_oneof![3 => sinks, 1 => profs].boxed()
    }
    fn fixed(t: Tier) -> Vec<Case> {
        let dfs = t.pick(400, 60_000);
        let mk = |prefill: Vec<u32>, threads: Vec<Vec<Op>>, let_go: bool| Case { profiler: false, memory: false, real: false, dfs, prefill, threads, let_go, sched: vec![] };
        let m = MAX as u32;
        let mut v = vec![
            // small writes of two threads, with a switch inside of the callback
            mk(vec![0, 0, 0], vec![vec![Op::Atomic(0, 10, true), Op::Atomic(0, 11, true)], vec![Op::Bytes(0, 12), Op::Atomic(0, 13, true)]], true),
            // the buffer is full for whoever comes second
            mk(vec![m - 20, 0, 0], vec![vec![Op::Atomic(0, 15, true)], vec![Op::Atomic(0, 15, true)]], true),
            mk(vec![m - 20, m - 20, 0], vec![vec![Op::Atomic(0, 30, false), Op::Atomic(1, 30, false)], vec![Op::Atomic(1, 30, false), Op::Atomic(0, 30, false)]], true),
            mk(vec![MIN as u32 - 3, 0, 0], vec![vec![Op::Bytes(0, 200)], vec![Op::Bytes(0, 300), Op::Atomic(0, 5, false)]], false),
            mk(vec![0, 0, 0], vec![vec![Op::Atomic(0, 5, false), Op::Flush(0)], vec![Op::Atomic(1, 6, false), Op::Flush(1)]], true),
            mk(vec![0, 0, 0], vec![vec![Op::Atomic(0, 5, false), Op::Flush(0)], vec![Op::Atomic(0, 6, false), Op::Flush(0)]], false),
            mk(vec![0, 0, 0], vec![vec![Op::Bytes(0, m + 7)], vec![Op::Atomic(0, m + 9, true)]], true),
            mk(vec![0, 0, 0], vec![vec![Op::Std(0, m + 7)], vec![Op::Std(0, MIN as u32 + 1), Op::Atomic(0, 9, true)]], true),
            mk(vec![0, 0, 0], vec![vec![Op::Std(0, 11), Op::Std(0, 12)], vec![Op::Std(0, 13), Op::Bytes(0, 129)]], true),
        ];
        for (k, other) in [(70, Op::Map(0, false)), (255, Op::Bulk(0, 3)), (200, Op::Bulk(0, 130))] {
            v.push(Case {
                profiler: true,
                memory: false,
                real: false,
                dfs: dfs / 4,
                prefill: vec![0],
                threads: vec![vec![Op::Bulk(0, k)], vec![other.clone(), other]],
                let_go: false,
                sched: vec![],
            });
        }
        for let_go in [false, true] {
            v.push(Case {
                profiler: true,
                memory: false,
                real: false,
                dfs: dfs / 4,
                prefill: vec![8190],
                threads: vec![vec![Op::Str(5, true), Op::Instant(0, 1)], vec![Op::Map(0, true), Op::Integer(1, 0)]],
                let_go,
                sched: vec![],
            });
        }
        v
    }

    fn check(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
        let dir = ctx.dir();
        let stem = dir.0.join("p");
        let mut real = case.real || cfg!(not(feature = "shim"));
        if !real && BLIND.load(Ordering::Relaxed) {
            ctx.class("locks out of control, run on real threads");
            real = true;
        }
        let writers = case.threads.iter().filter(|t| t.iter().any(|o| !matches!(o, Op::Yield | Op::Close))).count();
        #[cfg(feature = "shim")]
        if !real {
            may_switch();
            let switches: Arc<AtomicU64> = Arc::default();
            let (c, s, w) = (case.clone(), stem.clone(), switches.clone());
            match timed(move || {
                let c2 = c.clone();
                sched::run(&c2, w, move || body(&c, &s))
            }) {
                Some(r) => {
                    let n = r?;
                    let k = switches.load(Ordering::Relaxed);
                    ctx.count("schedules", n as u64);
                    ctx.count("forced switches", k);
                    ctx.class_if(case.dfs > 0, "depth-first enumeration");
                    ctx.class_if(case.dfs > 0 && n < case.dfs as usize, "all schedules enumerated");
                    ctx.class_if(case.dfs == 0, "generated schedule");
                    ctx.class_if(case.profiler, "profiler");
                    ctx.class_if(!case.profiler, "streams");
                    ctx.nontrivial_if(writers >= 2 && (k >= 3 || case.dfs > 0));
                    return Ok(());
                }
                None => {
                    // Blocked in something that is not one of our locks: real threads decide.
                    BLIND.store(true, Ordering::Relaxed);
                    real = true;
                }
            }
        }
        let _ = (real, AtomicU64::new(0));
        let c = case.clone();
        match timed(move || {
            body(&c, &stem);
            1
        }) {
            Some(r) => {
                r?;
                ctx.class("real threads");
                ctx.class_if(case.profiler, "profiler");
                ctx.class_if(!case.profiler, "streams");
                ctx.nontrivial_if(writers >= 2);
                Ok(())
            }
            None => Err("the threads do not finish within 60 s: deadlock".into()),
        }
    }
}
