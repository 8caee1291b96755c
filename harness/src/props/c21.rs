//! C21: the file while it is being written, and failing storage. The history runs in a child
//! process, which forks once per injected fault.
use super::c01::{content, resolve, size, tag, Size, MAX, MIN};
use crate::driver::*;
use crate::io::{self, Kind};
use measureme::{EventId, Profiler, SerializationSink, SerializationSinkBuilder, StringId};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::io::{Read, Write};
use std::path::Path;
use std::process::{Command, Stdio};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    Atomic(u8, Size),
    Bytes(u8, Size),
    Std(u8, Size),
    Many(u8, u8, u16),
    Flush(u8),
    /// profiler mode
    Str(u32),
    Event(u8, u64),
    Burst(u16),
    Map(u32),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub profiler: bool,
    pub tags: Vec<u8>,
    pub ops: Vec<Op>,
    /// where storing fails, relative to the page boundaries: (boundary, offset)
    pub near: Vec<(u16, i16)>,
    /// and relative to the whole file
    pub far: Vec<u16>,
    /// every position below this
    pub all_below: u16,
    /// the process dies after these operations
    pub crash: Vec<u8>,
    pub full: bool,
    /// what happens at which call that writes, after which part of its bytes
    pub calls: Vec<(Kind, u16, u16)>,
    /// the writer goes on after a failed operation
    pub go_on: bool,
}

// ---------------------------------------------------------------- execution

/// What the caller was told: shared with the parent of a fork.
#[repr(C)]
struct Progress {
    /// operations which returned
    done: u64,
    /// bytes of each stream written by calls that have at least started
    begun: [u64; 3],
    /// bytes of each stream which an explicit flush has reported as stored
    flushed: [u64; 3],
    /// length of the session metadata string, known from the first string id
    meta: u64,
}

struct Model {
    want: [Vec<u8>; 3],
}

enum Target {
    Sinks(Vec<SerializationSink>),
    Profiler(Profiler),
}

const V9: [u8; 4] = [9, 0, 0, 0];

/// Bytes which the history writes to each stream. In profiler mode the session metadata string
/// is left out of the data stream (its text is not known beforehand).
fn run_ops(
    case: &Case,
    target: &Target,
    model: &mut Model,
    pr: *mut Progress,
    go_on: bool,
    mut after: impl FnMut(usize, &Model) -> Result<(), String>,
) -> Result<(), String> {
    let (mut failed, mut failures) = (None, 0);
    // a single call; what it writes does not depend on what failed before
    let mut call = |f: &mut dyn FnMut()| {
        if !go_on {
            f();
        } else if failures == 6 {
            return false;
        } else if let Err(e) = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
            failed.get_or_insert(e);
            failures += 1;
            return false;
        }
        true
    };
    let pr = unsafe { &mut *pr };
    let mut fill = [0usize; 3];
    let mut ids: Vec<(StringId, u64)> = vec![];
    for (oi, op) in case.ops.iter().enumerate() {
        match target {
            Target::Sinks(sinks) => {
                let which = |s: &u8| *s as usize % sinks.len();
                match op {
                    Op::Atomic(s, z) | Op::Bytes(s, z) | Op::Std(s, z) => {
                        let k = which(s);
                        let t = case.tags[k] as usize;
                        let len = resolve(z, fill[t]);
                        let data: Vec<u8> = (0..len).map(|i| content(oi, i)).collect();
                        model.want[t].extend(&data);
                        pr.begun[t] = model.want[t].len() as u64;
                        match op {
                            Op::Atomic(..) => {
                                fill[t] = if fill[t] + len > MAX { len % MAX } else { fill[t] + len };
                                call(&mut || {
                                    sinks[k].write_atomic(len, |b| b.copy_from_slice(&data));
                                });
                            }
                            Op::Bytes(..) => {
                                call(&mut || {
                                    sinks[k].write_bytes_atomic(&data);
                                });
                                fill[t] = (fill[t] + len) % MIN;
                            }
                            _ => {
                                call(&mut || sinks[k].as_std_write().write_all(&data).expect("std write"));
                                fill[t] = (fill[t] + len) % MIN;
                            }
                        }
                    }
                    Op::Many(s, size, count) => {
                        let k = which(s);
                        let t = case.tags[k] as usize;
                        for j in 0..*count as usize {
                            let data: Vec<u8> = (0..*size as usize).map(|i| content(oi + j, i)).collect();
                            model.want[t].extend(&data);
                            pr.begun[t] = model.want[t].len() as u64;
                            call(&mut || {
                                sinks[k].write_atomic(data.len(), |b| b.copy_from_slice(&data));
                            });
                        }
                        fill[t] = (fill[t] + *size as usize * *count as usize) % MAX;
                    }
                    Op::Flush(s) => {
                        let k = which(s);
                        let t = case.tags[k] as usize;
                        // An error is a visible failure, too.
                        if call(&mut || sinks[k].as_std_write().flush().expect("flush")) {
                            pr.flushed[t] = model.want[t].len() as u64;
                        }
                        fill[t] = 0;
                    }
                    _ => {}
                }
            }
            Target::Profiler(p) => {
                let first = 100_000_003u64;
                match op {
                    Op::Str(n) => {
                        let text: String = (0..*n as usize).map(|i| (b'a' + (i as u8 ^ oi as u8) % 26) as char).collect();
                        let at = model.want[1].len() as u64;
                        model.want[1].extend(text.bytes());
                        model.want[1].push(0xFF);
                        pr.begun[1] = model.want[1].len() as u64;
                        let mut id = None;
                        call(&mut || id = Some(p.alloc_string(&text[..])));
                        let id = match id {
                            Some(id) => id,
                            None if ids.is_empty() => return Err("no string was stored".into()),
                            None => StringId::new(first + at + pr.meta),
                        };
                        if ids.is_empty() {
                            pr.meta = id.as_u64() - first - at;
                        }
                        ids.push((id, at));
                    }
                    Op::Event(..) | Op::Burst(_) => {
                        let (k, n) = match op {
                            Op::Event(k, _) => (*k as usize, 1),
                            Op::Burst(n) => (0, *n as u64),
                            _ => unreachable!(),
                        };
                        for j in 0..n {
                            let v = match op {
                                Op::Event(_, v) => *v & 0xFFFF_FFFF_FFFF,
                                _ => j,
                            };
                            let (id, raw) = (StringId::new_virtual(k as u32), k as u64);
                            let mut rec = vec![];
                            rec.extend(raw.to_le_bytes());
                            rec.extend(raw.to_le_bytes());
                            rec.extend((k as u32).to_le_bytes());
                            rec.extend(((v & 0xFFFF_FFFF) as u32).to_le_bytes());
                            rec.extend(0xFFFF_FFFEu32.to_le_bytes());
                            rec.extend((((v >> 32) << 16) as u32 | 0xFFFF).to_le_bytes());
                            model.want[0].extend(rec);
                            pr.begun[0] = model.want[0].len() as u64;
                            call(&mut || p.record_integer_event(id, EventId::from_label(id), k as u32, v));
                        }
                    }
                    Op::Map(v) => {
                        if let Some((id, at)) = ids.last() {
                            let v = *v % 100_000_001;
                            model.want[2].extend((v as u64).to_le_bytes());
                            model.want[2].extend(at.to_le_bytes());
                            pr.begun[2] = model.want[2].len() as u64;
                            call(&mut || p.map_virtual_to_concrete_string(StringId::new_virtual(v), *id));
                        }
                    }
                    _ => {}
                }
            }
        }
        pr.done = oi as u64 + 1;
        after(oi, model)?;
    }
    match failed {
        Some(e) => std::panic::resume_unwind(e),
        None => Ok(()),
    }
}

fn header(magic: &[u8; 4]) -> Vec<u8> {
    [&magic[..], &V9].concat()
}

fn new_model(case: &Case) -> Model {
    if case.profiler {
        let mut index = header(b"MMSI");
        index.extend(100_000_001u64.to_le_bytes());
        index.extend(8u64.to_le_bytes());
        Model { want: [header(b"MMES"), header(b"MMSD"), index] }
    } else {
        Model { want: [vec![], vec![], vec![]] }
    }
}

/// Makes the target; in profiler mode `path` is the stem.
fn open(case: &Case, path: &Path) -> Result<(Target, Option<SerializationSinkBuilder>), String> {
    if case.profiler {
        Ok((Target::Profiler(Profiler::new(path).map_err(|e| e.to_string())?), None))
    } else {
        let f = std::fs::File::create(path.with_extension("mm_profdata")).map_err(|e| e.to_string())?;
        let b = SerializationSinkBuilder::new_from_file(f).map_err(|e| e.to_string())?;
        Ok((Target::Sinks(case.tags.iter().map(|t| b.new_sink(tag(*t))).collect()), Some(b)))
    }
}

// ---------------------------------------------------------------- verification

type Pages = Vec<(u8, std::ops::Range<usize>)>;

/// The complete pages and whether a torn page follows.
fn pages(b: &[u8]) -> Result<(Pages, usize), String> {
    let mut at = 0;
    let mut v = vec![];
    loop {
        let rest = b.len() - at;
        if rest == 0 {
            return Ok((v, at));
        }
        if b[at] > 2 {
            return Err(format!("byte {at} is {} where a page tag belongs", b[at]));
        }
        if rest < 5 {
            return Ok((v, at));
        }
        let n = u32::from_le_bytes(b[at + 1..at + 5].try_into().unwrap()) as usize;
        if n == 0 || n > MAX {
            return Err(format!("the page at byte {at} claims {n} content bytes"));
        }
        if n > rest - 5 {
            return Ok((v, at));
        }
        v.push((b[at], at + 5..at + 5 + n));
        at += 5 + n;
    }
}

/// Recovers the streams from the complete pages and compares with what was written so far.
/// Returns the recovered lengths (in terms of the model).
fn verify(case: &Case, bytes: &[u8], model: &Model, meta: u64, whole: bool) -> Result<[u64; 3], String> {
    let mut body = bytes;
    if case.profiler {
        let top = header(b"MMPD");
        if bytes.len() < 8 {
            if !top.starts_with(bytes) || whole {
                return Err(format!("the file starts with {bytes:?}"));
            }
            return Ok([0; 3]);
        }
        if bytes[..8] != top[..] {
            return Err(format!("the file starts with {:?}", &bytes[..8]));
        }
        body = &bytes[8..];
    }
    let (pgs, end) = pages(body)?;
    if whole && end != body.len() {
        return Err(format!("{} bytes after the last complete page", body.len() - end));
    }
    let mut got: [Vec<u8>; 3] = Default::default();
    for (t, r) in pgs {
        got[t as usize].extend(&body[r]);
    }
    if case.profiler && got[1].len() > 8 {
        // cut out the session metadata
        let g = &mut got[1];
        match g[8..].iter().position(|b| *b == 0xFF) {
            Some(k) => {
                g.drain(8..8 + k + 1);
            }
            None => g.truncate(8),
        }
    }
    if case.profiler {
        // addresses without the metadata string
        let mut k = 8 + 16;
        while k + 16 <= got[2].len() {
            let a = u64::from_le_bytes(got[2][k + 8..k + 16].try_into().unwrap());
            got[2][k + 8..k + 16].copy_from_slice(&a.wrapping_sub(meta).to_le_bytes());
            k += 16;
        }
        if k < got[2].len() {
            // a page ends within an entry
            let n = k.min(got[2].len());
            got[2].truncate(n);
        }
    }
    let mut len = [0; 3];
    for t in 0..3 {
        if !model.want[t].starts_with(&got[t]) {
            let k = got[t].iter().zip(&model.want[t]).position(|(a, b)| a != b).unwrap_or(model.want[t].len());
            return Err(format!(
                "stream {t} as stored ({} bytes in complete pages) is not a prefix of the {} bytes written, from byte {k} on",
                got[t].len(),
                model.want[t].len()
            ));
        }
        if whole && got[t].len() != model.want[t].len() {
            return Err(format!("stream {t}: {} of {} bytes are in the file", got[t].len(), model.want[t].len()));
        }
        len[t] = got[t].len() as u64;
    }
    Ok(len)
}

fn read(p: &Path) -> Vec<u8> {
    std::fs::read(p).expect("harness: read")
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Fault {
    Limit(u64),
    Crash(usize),
    Full,
    Call(Kind, u64, u16),
}

/// Runs the history in a forked process under a fault. Returns whether it reported success.
unsafe fn forked(case: &Case, stem: &Path, fault: Fault, pr: *mut Progress) -> bool {
    *pr = Progress { done: 0, begun: [0; 3], flushed: [0; 3], meta: 0 };
    let pid = libc::fork();
    assert!(pid >= 0, "harness: fork");
    if pid == 0 {
        if let Fault::Limit(n) = fault {
            let l = libc::rlimit { rlim_cur: n, rlim_max: libc::RLIM_INFINITY };
            let mut cur = l;
            libc::getrlimit(libc::RLIMIT_FSIZE, &mut cur);
            let l = libc::rlimit { rlim_cur: n, rlim_max: cur.rlim_max };
            if libc::setrlimit(libc::RLIMIT_FSIZE, &l) != 0 {
                libc::_exit(99);
            }
        }
        if let Fault::Call(kind, n, part) = fault {
            io::arm(Some(kind), n, part);
        }
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            let (target, b) = match open(case, stem) {
                Ok(x) => x,
                Err(_) => libc::_exit(1),
            };
            let mut m = new_model(case);
            let done = run_ops(
                case,
                &target,
                &mut m,
                pr,
                case.go_on,
                |oi, _| {
                    if fault == Fault::Crash(oi) {
                        libc::_exit(50);
                    }
                    Ok(())
                },
            );
            drop(target);
            drop(b);
            done.expect("failed");
        }));
        libc::_exit(if r.is_ok() { 0 } else { 1 });
    }
    let mut st = 0;
    assert!(libc::waitpid(pid, &mut st, 0) == pid, "harness: waitpid");
    if libc::WIFEXITED(st) {
        match libc::WEXITSTATUS(st) {
            0 => true,
            99 => panic!("harness: setrlimit"),
            _ => false,
        }
    } else {
        assert!(libc::WTERMSIG(st) != libc::SIGKILL, "harness: killed");
        false
    }
}

#[derive(Serialize, Deserialize, Default)]
struct Report {
    error: Option<String>,
    faults: u64,
    failed_visibly: u64,
    crashes: u64,
    size: u64,
    pages: u64,
    calls: u64,
    call_faults: u64,
}

fn run_child(case: &Case, dir: &Path) -> Result<Report, String> {
    let mut rep = Report::default();
    let stem = dir.join("p");
    let file = dir.join("p.mm_profdata");
    let pr = unsafe {
        let p = libc::mmap(
            std::ptr::null_mut(),
            4096,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS,
            -1,
            0,
        );
        assert!(p != libc::MAP_FAILED, "harness: mmap");
        libc::signal(libc::SIGXFSZ, libc::SIG_IGN);
        p as *mut Progress
    };
    unsafe { *pr = Progress { done: 0, begun: [0; 3], flushed: [0; 3], meta: 0 } };

    // In half of the cases a longer file is there already.
    let stale = case.profiler && case.near.len() % 2 == 0;
    let old = || {
        if stale {
            std::fs::write(&file, vec![1u8; 700_000]).expect("harness: stale file");
        }
    };
    old();
    io::arm(None, 0, 0);
    // Without faults, looking at the file after every operation.
    let (target, b) = open(case, &stem)?;
    let mut model = new_model(case);
    let mut last = read(&file);
    let r = run_ops(
        case,
        &target,
        &mut model,
        pr,
        false,
        |oi, m| {
            let now = read(&file);
            if now.len() < last.len() || now[..last.len()] != last[..] {
                return Err(format!("after operation {oi} the file no longer starts with what was in it before ({} bytes, now {})", last.len(), now.len()));
            }
            if now.len() > last.len() || oi == 0 || matches!(case.ops[oi], Op::Flush(_)) {
                let got = verify(case, &now, m, unsafe { (*pr).meta }, false).map_err(|e| format!("after operation {oi}: {e}"))?;
                let fl = unsafe { (*pr).flushed };
                for t in 0..3 {
                    if got[t] < fl[t] {
                        return Err(format!("after operation {oi}: stream {t} was flushed up to {} bytes but the file holds {}", fl[t], got[t]));
                    }
                }
            }
            last = now;
            Ok(())
        },
    );
    if let Err(e) = r {
        std::mem::forget(target);
        return Err(e);
    }
    drop(target);
    drop(b);
    let calls = io::disarm();
    rep.calls = calls;
    let whole = read(&file);
    if whole.len() < last.len() || whole[..last.len()] != last[..] {
        return Err("at the end the file no longer starts with what was in it before".into());
    }
    verify(case, &whole, &model, unsafe { (*pr).meta }, true).map_err(|e| format!("after an orderly end: {e}"))?;
    if case.profiler {
        match catch(|| analyzeme::ProfilingData::new(&file).map(|d| d.num_events())) {
            Ok(Ok(n)) if n == (model.want[0].len() - 8) / 32 => {}
            r => return Err(format!("after an orderly end the profile does not load with all events: {r:?}")),
        }
    }
    rep.size = whole.len() as u64;

    // Fault positions.
    let skip = if case.profiler { 8 } else { 0 };
    let pgs = pages(&whole[skip..])?.0;
    rep.pages = pgs.len() as u64;
    let mut edges: Vec<usize> = pgs.iter().map(|(_, r)| r.start + skip - 5).collect();
    edges.push(whole.len());
    let mut points: Vec<u64> = (0..whole.len().min(case.all_below as usize) as u64).collect();
    for (b, d) in &case.near {
        let p = edges[*b as usize % edges.len()] as i64 + *d as i64;
        if p >= 0 && p < whole.len() as i64 {
            points.push(p as u64);
        }
    }
    for f in &case.far {
        points.push(*f as u64 * whole.len() as u64 / 65536);
    }
    if !whole.is_empty() {
        points.push(whole.len() as u64 - 1);
        points.push(whole.len() as u64);
    }
    points.sort();
    points.dedup();
    points.retain(|p| *p <= whole.len() as u64);
    let mut faults: Vec<Fault> = points.into_iter().map(Fault::Limit).collect();
    for c in &case.crash {
        if !case.ops.is_empty() {
            faults.push(Fault::Crash(*c as usize % case.ops.len()));
        }
    }
    if case.full {
        faults.push(Fault::Full);
    }
    if calls > 0 {
        for (i, (kind, n, part)) in case.calls.iter().enumerate() {
            match (i, kind) {
                // everywhere, if there are not many
                (0, Kind::Error(_) | Kind::Die) if calls <= 24 => faults.extend((0..calls).map(|c| Fault::Call(*kind, c, *part))),
                _ => faults.push(Fault::Call(*kind, *n as u64 % calls, *part)),
            }
        }
    }
    for fault in faults {
        let _ = std::fs::remove_file(&file);
        if fault == Fault::Full {
            std::os::unix::fs::symlink("/dev/full", &file).expect("harness: symlink");
        }
        if fault != Fault::Full {
            old();
        }
        let ok = unsafe { forked(case, &stem, fault, pr) };
        let pr = unsafe { &*pr };
        match fault {
            Fault::Limit(_) | Fault::Full => rep.faults += 1,
            Fault::Crash(_) => rep.crashes += 1,
            Fault::Call(..) => rep.call_faults += 1,
        }
        if !ok {
            rep.failed_visibly += matches!(fault, Fault::Limit(_) | Fault::Full | Fault::Call(Kind::Error(_), ..)) as u64;
        }
        if fault == Fault::Full {
            std::fs::remove_file(&file).expect("harness: unlink");
            let any = case.profiler || model.want.iter().any(|w| !w.is_empty());
            if ok && any {
                return Err("on a full device the writer reports success".into());
            }
            continue;
        }
        let now = read(&file);
        if matches!(fault, Fault::Call(Kind::Short | Kind::Interrupted, ..)) && !ok {
            return Err(format!("{fault:?}: the writer fails although no call does"));
        }
        if ok {
            verify(case, &now, &model, pr.meta, true)
                .map_err(|e| format!("{fault:?}: the writer reports success, but {e}"))?;
        } else {
            // Only what was handed over before the failure may be there.
            let begun = if case.profiler {
                // headers and metadata are written first
                let mut m = new_model(case);
                for t in 0..3 {
                    m.want[t] = model.want[t][..model.want[t].len().min(pr.begun[t].max(m.want[t].len() as u64) as usize)].to_vec();
                }
                m
            } else {
                let mut m = new_model(case);
                for t in 0..3 {
                    m.want[t] = model.want[t][..pr.begun[t] as usize].to_vec();
                }
                m
            };
            let got = verify(case, &now, &begun, pr.meta, false).map_err(|e| format!("{fault:?}, after {} operations: {e}", pr.done))?;
            for t in 0..3 {
                if got[t] < pr.flushed[t] {
                    return Err(format!("{fault:?}: a flush reported {} bytes of stream {t} as stored, the file holds {}", pr.flushed[t], got[t]));
                }
            }
        }
    }
    Ok(rep)
}

/// Runs in the started process: case on stdin, report on stdout.
pub fn child() -> i32 {
    install_panic_hook();
    let mut s = String::new();
    std::io::stdin().read_to_string(&mut s).unwrap();
    let case: Case = serde_json::from_str(&s).unwrap();
    let dir = std::path::PathBuf::from(std::env::var_os("VH_STEM").unwrap());
    let rep = match catch(|| run_child(&case, &dir)) {
        Ok(Ok(r)) => r,
        Ok(Err(e)) => Report { error: Some(e), ..Report::default() },
        Err(m) => Report { error: Some(format!("panic: {m}")), ..Report::default() },
    };
    std::io::stdout().write_all(&serde_json::to_vec(&rep).unwrap()).unwrap();
    0
}

// ---------------------------------------------------------------- property

pub struct P;
impl Prop for P {
    type Case = Case;
    const ID: &'static str = "C21";
    const LEVEL: &'static str = "fault_enumeration";
    const RULE: &'static str = "Write histories on sinks or on a real profiler in a child process. The file is read after every operation (append-only, complete pages hold a prefix of each stream, flushed data present). Then the history is repeated in forked processes with the file size limited at generated positions (every byte of small files and around page boundaries, writes are cut short there and then fail), on a full device, with the process dying after an operation, and with single calls that write (all, if there are few) failing once after a part of their bytes, dying there, storing little, or being interrupted - with the writer giving up or going on after a failed operation; success may be reported only for a complete file. Non-trivial: at least one injected failure was hit with data already in the file.";
    const ASSUMPTIONS: &'static [&'static str] = &["a crash is the death of the process; data handed to the operating system survives it"];
    fn cases(t: Tier) -> u32 {
        t.pick(1600, 60_000)
    }
    fn strategy(_t: Tier) -> BoxedStrategy<Case> {
        let small = || prop_oneof![8 => (0u32..300).prop_map(Size::Abs), 2 => size()];
        let sink_op = prop_oneof![
            4 => (any::<u8>(), small()).prop_map(|(s, z)| Op::Atomic(s, z)),
            4 => (any::<u8>(), small()).prop_map(|(s, z)| Op::Bytes(s, z)),
            1 => (any::<u8>(), small()).prop_map(|(s, z)| Op::Std(s, z)),
            1 => (any::<u8>(), 1u8..64, prop_oneof![3 => 1u16..30, 1 => 2000u16..9000]).prop_map(|(s, z, n)| Op::Many(s, z, n)),
            3 => any::<u8>().prop_map(Op::Flush),
        ];
        let prof_op = prop_oneof![
            4 => prop_oneof![6 => 0u32..60, 2 => 100u32..400, 1 => 130_000u32..300_000].prop_map(Op::Str),
            4 => (any::<u8>(), crate::model::integer_value()).prop_map(|(k, v)| Op::Event(k, v)),
            1 => prop_oneof![4 => 1u16..50, 1 => 8000u16..9000].prop_map(Op::Burst),
            2 => any::<u32>().prop_map(Op::Map),
        ];
        let near = proptest::collection::vec((any::<u16>(), prop_oneof![3 => -2i16..8, 1 => any::<i16>()]), 4..24);
        (
            prop_oneof![
                3 => proptest::collection::vec(sink_op, 0..14).prop_map(|o| (false, o)),
                1 => proptest::collection::vec(prof_op, 0..14).prop_map(|o| (true, o)),
            ],
            proptest::sample::subsequence(vec![0u8, 1, 2], 1..=3),
            near,
            proptest::collection::vec(any::<u16>(), 0..8),
            prop_oneof![6 => Just(0u16), 3 => Just(24u16), 1 => Just(400u16)],
            proptest::collection::vec(any::<u8>(), 0..4),
            any::<bool>(),
            proptest::collection::vec(
                (
                    prop_oneof![5 => any::<u8>().prop_map(Kind::Error), 3 => Just(Kind::Die), 1 => Just(Kind::Short), 1 => Just(Kind::Interrupted)],
                    any::<u16>(),
                    prop_oneof![2 => Just(0u16), 2 => any::<u16>(), 1 => Just(65535u16)],
                ),
                0..8,
            ),
            any::<bool>(),
        )
            .prop_map(|((profiler, ops), tags, near, far, all_below, crash, full, calls, go_on)| Case {
                profiler,
                tags,
                ops,
                near,
                far,
                all_below,
                crash,
                full,
                calls,
                go_on,
            })
            .boxed()
    }
    fn check(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
        let dir = ctx.dir();
        let mut c = Command::new(std::env::current_exe().expect("harness: exe"))
            .env("VH_CHILD", "c21")
            .env("VH_STEM", &dir.0)
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .expect("harness: spawn");
        c.stdin.take().unwrap().write_all(&serde_json::to_vec(case).unwrap()).expect("harness: case to child");
        let out = c.wait_with_output().expect("harness: wait");
        use std::os::unix::process::ExitStatusExt;
        if let Some(s) = out.status.signal() {
            assert!(s != libc::SIGKILL, "harness: child killed");
            return Err(format!("writing an ordinary history ends the process with signal {s}"));
        }
        assert!(out.status.success(), "harness: child ends with {:?}", out.status);
        let rep: Report = serde_json::from_slice(&out.stdout).expect("harness: report");
        if let Some(e) = rep.error {
            assert!(!e.contains("harness:"), "{e}");
            return Err(e);
        }
        ctx.class_if(case.profiler, "real profiler");
        ctx.class_if(rep.pages >= 4, "four or more pages");
        ctx.count("injected write failures", rep.faults);
        ctx.count("of them failing visibly", rep.failed_visibly);
        ctx.count("process deaths", rep.crashes);
        ctx.count("faults at single calls", rep.call_faults);
        ctx.nontrivial_if(rep.failed_visibly > 0 && rep.size > 5);
        Ok(())
    }
}
