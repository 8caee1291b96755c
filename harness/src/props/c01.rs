//! C01: the paged container.
use crate::codec;
use crate::driver::*;
use measureme::{PageTag, SerializationSink, SerializationSinkBuilder};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::io::Write;

pub const MAX: usize = 256 * 1024;
pub const MIN: usize = 128 * 1024;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Size {
    Abs(u32),
    /// Brings the stream's unstored tail to target + delta bytes, as far as it can be known.
    To { max: bool, delta: i8 },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    Atomic(Size),
    Bytes(Size),
    Std(Size),
    StdWriteAll(Vec<u16>),
    Many { size: u8, count: u16, slice: bool },
    Flush,
    /// a callback that fills `fill` bytes and then panics
    Panic(Size, u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub file: bool,
    pub tags: Vec<u8>,
    pub ops: Vec<(u8, Op)>,
    /// order in which the sinks end
    pub end: Vec<u8>,
    /// 0, or: the first sink starts with this many bytes (only boundary cases; stored in a pipe)
    #[serde(default)]
    pub huge: u64,
}

const PERIOD: usize = 1_048_573;

/// The content of the long beginning of a stream: byte `a` is PATTERN[a % PERIOD].
fn pattern() -> &'static [u8] {
    static P: std::sync::OnceLock<Vec<u8>> = std::sync::OnceLock::new();
    P.get_or_init(|| {
        let mut x = 1u64;
        let once: Vec<u8> = (0..PERIOD)
            .map(|_| {
                x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                (x >> 56) as u8
            })
            .collect();
        once.iter().chain(once.iter()).copied().collect()
    })
}

/// Reads pages from a pipe to its end; the first `base` bytes of the stream `tag0` are compared
/// with the pattern, all other content is kept. Everything is read even after an error.
fn read_pages(mut r: std::fs::File, tag0: u8, base: u64) -> Result<[Vec<u8>; 3], String> {
    use std::io::Read;
    let mut got: [Vec<u8>; 3] = Default::default();
    let mut at = 0u64;
    let mut pos = 0u64;
    let mut err: Option<String> = None;
    let mut buf = vec![0u8; 1 << 20];
    let mut head: Vec<u8> = vec![];
    let mut left = 0usize;
    loop {
        let n = match r.read(&mut buf) {
            Ok(0) => break,
            Ok(n) => n,
            Err(e) if e.kind() == std::io::ErrorKind::Interrupted => continue,
            Err(e) => panic!("harness: pipe: {e}"),
        };
        if err.is_some() {
            continue;
        }
        let mut b = &buf[..n];
        while !b.is_empty() {
            if left == 0 {
                let k = (5 - head.len()).min(b.len());
                head.extend_from_slice(&b[..k]);
                b = &b[k..];
                pos += k as u64;
                if head.len() == 5 {
                    left = u32::from_le_bytes(head[1..5].try_into().unwrap()) as usize;
                    if head[0] > 2 || left == 0 {
                        err = Some(format!("bad page head {head:?} before byte {pos}"));
                        break;
                    }
                    if left > 0 {
                        continue;
                    }
                }
                continue;
            }
            let k = left.min(b.len());
            let mut c = &b[..k];
            let t = head[0];
            if t == tag0 && at < base {
                let m = ((base - at).min(c.len() as u64)) as usize;
                let mut x = &c[..m];
                while !x.is_empty() {
                    let o = (at % PERIOD as u64) as usize;
                    let q = x.len().min(PERIOD);
                    if x[..q] != pattern()[o..o + q] {
                        err = Some(format!("stream {t} is not recovered near its byte {at}"));
                        break;
                    }
                    at += q as u64;
                    x = &x[q..];
                }
                c = &c[m..];
            }
            got[t as usize].extend_from_slice(c);
            left -= k;
            pos += k as u64;
            b = &b[k..];
            if left == 0 {
                head.clear();
            }
        }
    }
    match err {
        Some(e) => Err(e),
        None if left > 0 || !head.is_empty() => Err("the stored bytes end inside a page".into()),
        None if at < base => Err(format!("stream {tag0} has only {at} of its bytes")),
        None => Ok(got),
    }
}

pub fn resolve(z: &Size, fill: usize) -> usize {
    match *z {
        Size::Abs(n) => n as usize,
        Size::To { max, delta } => {
            let t = (if max { MAX } else { MIN }) as i64 + delta as i64 - fill as i64;
            if t < 0 {
                (t + MAX as i64) as usize
            } else {
                t as usize
            }
        }
    }
}

pub fn content(op: usize, i: usize) -> u8 {
    let x = (op as u32).wrapping_mul(0x9E37_79B9) ^ (i as u32).wrapping_mul(0x85EB_CA6B);
    (x >> 13) as u8
}

pub fn size() -> BoxedStrategy<Size> {
    let abs = prop_oneof![
        40 => 0u32..70,
        30 => 120u32..140,
        20 => 1u32..4000,
        20 => proptest::sample::select(vec![MIN as u32, MAX as u32, 2 * MAX as u32, (MAX + MIN) as u32, 3 * MAX as u32])
            .prop_flat_map(|b| (-3i32..=3).prop_map(move |d| (b as i64 + d as i64) as u32)),
        9 => 0u32..700_000,
        1 => 0u32..4_000_000,
    ];
    prop_oneof![
        4 => abs.prop_map(Size::Abs),
        2 => (any::<bool>(), -3i8..=3).prop_map(|(max, delta)| Size::To { max, delta }),
        1 => (any::<bool>(), prop_oneof![Just(-128i8), Just(127), -128i8..=127]).prop_map(|(max, delta)| Size::To { max, delta }),
    ]
    .boxed()
}

pub fn tag(t: u8) -> PageTag {
    match t % 3 {
        0 => PageTag::Events,
        1 => PageTag::StringData,
        _ => PageTag::StringIndex,
    }
}

pub struct P;
impl Prop for P {
    type Case = Case;
    const ID: &'static str = "C01";
    const RULE: &'static str = "Op lists over 1-3 sinks on one storage (file or memory): write_atomic, write_bytes_atomic, std write, runs of small writes, callbacks that panic, flush; sizes biased to 0, 128, the page limits and to what fills the buffer exactly. Non-trivial: at least two streams with data and at least one page boundary crossed (more than 128 KiB in one stream, or a flush between writes).";
    fn cases(t: Tier) -> u32 {
        t.pick(12_000, 400_000)
    }
    fn strategy(_t: Tier) -> BoxedStrategy<Case> {
        let op = prop_oneof![
            5 => size().prop_map(Op::Atomic),
            5 => size().prop_map(Op::Bytes),
            1 => size().prop_map(Op::Std),
            1 => proptest::collection::vec(0u16..600, 1..5).prop_map(Op::StdWriteAll),
            2 => (1u8..=140, prop_oneof![1u16..50, 1000u16..9000], any::<bool>()).prop_map(|(size, count, slice)| Op::Many { size, count, slice }),
            2 => Just(Op::Flush),
            1 => (size(), any::<u8>()).prop_map(|(z, f)| Op::Panic(z, f)),
        ];
        (
            any::<bool>(),
            proptest::sample::subsequence(vec![0u8, 1, 2], 1..=3),
            proptest::collection::vec((any::<u8>(), op), 1..25),
            proptest::collection::vec(any::<u8>(), 0..3),
        )
            .prop_map(|(file, tags, ops, end)| Case { file, tags, ops, end, huge: 0 })
            .boxed()
    }
    fn fixed(t: Tier) -> Vec<Case> {
        // Streams beyond 4 GiB; the border is crossed by each kind of write.
        let ops = vec![
            Op::Atomic(Size::Abs(40)),
            Op::Bytes(Size::Abs(100)),
            Op::Atomic(Size::Abs(100_000)),
            Op::Bytes(Size::Abs(200)),
            Op::Flush,
            Op::Atomic(Size::Abs(300_000)),
            Op::Many { size: 24, count: 9000, slice: false },
            Op::Bytes(Size::Abs(300_000)),
            Op::Atomic(Size::Abs(1)),
        ];
        let all: Vec<(u8, Op)> = ops.iter().flat_map(|o| [(0, o.clone()), (1, o.clone())]).collect();
        let mut v = vec![];
        // Large pieces through each call, between small ones.
        for k in [1usize << 20, (1 << 20) + 1, 3 << 20, (16 << 20) + 5] {
            let z = Size::Abs(k as u32);
            for file in [false, true] {
                let ops = vec![(0, Op::Std(z.clone())), (1, Op::Bytes(z.clone())), (0, Op::Atomic(Size::Abs(9))), (1, Op::Atomic(z.clone())), (1, Op::Std(z.clone())), (0, Op::Bytes(Size::Abs(9)))];
                v.push(Case { file, tags: vec![0, 2], ops, end: vec![], huge: 0 });
            }
        }
        let starts = match t {
            Tier::Quick => vec![10u64, 150],
            Tier::Thorough => vec![0, 10, 100, 150, 90_000, 200_000, 400_000],
        };
        for d in starts {
            v.push(Case { file: true, tags: vec![1, 0], ops: all.clone(), end: vec![], huge: (1 << 32) - d });
        }
        if t == Tier::Thorough {
            v.push(Case { file: true, tags: vec![0, 2], ops: all, end: vec![], huge: (1 << 33) - 50 });
        }
        v
    }

    fn check(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
        let dir = ctx.dir();
        let path = dir.0.join("f");
        let mut reader = None;
        let builder = if case.huge > 0 {
            use std::os::fd::FromRawFd;
            let mut fds = [0; 2];
            ensure_eq!(unsafe { libc::pipe2(fds.as_mut_ptr(), libc::O_CLOEXEC) }, 0, "harness: pipe");
            let (r, w) = unsafe {
                libc::fcntl(fds[1], libc::F_SETPIPE_SZ, 1 << 20);
                (std::fs::File::from_raw_fd(fds[0]), std::fs::File::from_raw_fd(fds[1]))
            };
            let (t, n) = (case.tags[0], case.huge);
            reader = Some(std::thread::spawn(move || read_pages(r, t, n)));
            SerializationSinkBuilder::new_from_file(w).map_err(|e| e.to_string())?
        } else if case.file {
            SerializationSinkBuilder::new_from_file(std::fs::File::create(&path).expect("harness: file"))
                .map_err(|e| e.to_string())?
        } else {
            SerializationSinkBuilder::new_in_memory()
        };
        let n = case.tags.len();
        let mut sinks: Vec<Option<SerializationSink>> = case.tags.iter().map(|t| Some(builder.new_sink(tag(*t)))).collect();
        let mut want: Vec<Vec<u8>> = vec![vec![]; n];
        // (address, length, content seed)
        let mut writes: Vec<Vec<(u64, usize, usize)>> = vec![vec![]; n];
        // Only steers sizes to the buffer limits; not part of the oracle.
        let mut fill = vec![0usize; n];
        // what a callback left behind that panicked: any content
        let mut holes: Vec<Vec<std::ops::Range<usize>>> = vec![vec![]; n];
        let mut flushed = false;
        let mut base = vec![0u64; n];
        if case.huge > 0 {
            let mut k = 0u64;
            while base[0] < case.huge {
                let o = (base[0] % PERIOD as u64) as usize;
                // slices of several pages and of less than one
                k += 1;
                let len = (if k % 5 == 0 { 1000 + k % 97 } else { PERIOD as u64 }).min(case.huge - base[0]);
                let a = sinks[0].as_ref().unwrap().write_bytes_atomic(&pattern()[o..o + len as usize]);
                ensure_eq!(a.0, base[0], "address returned by write_bytes_atomic of {len} bytes");
                base[0] += len;
            }
            ctx.class("stream of more than 4 GiB");
            ctx.count("bytes", case.huge);
        }
        for (oi, (s, op)) in case.ops.iter().enumerate() {
            let s = *s as usize % n;
            let sink = sinks[s].as_ref().unwrap();
            let make = |len: usize| -> Vec<u8> { (0..len).map(|i| content(oi, i)).collect() };
            match op {
                Op::Atomic(z) => {
                    let len = resolve(z, fill[s]);
                    let data = make(len);
                    let mut seen = usize::MAX;
                    let a = sink.write_atomic(len, |b| {
                        seen = b.len();
                        b.copy_from_slice(&data)
                    });
                    ensure_eq!(seen, len, "size of the slice handed to the write callback");
                    ensure_eq!(a.0, base[s] + want[s].len() as u64, "address returned by write_atomic of {len} bytes");
                    writes[s].push((a.0, len, oi));
                    want[s].extend(data);
                    if len <= MAX {
                        fill[s] = if fill[s] + len > MAX { len } else { fill[s] + len };
                    } else {
                        fill[s] = 0;
                    }
                }
                Op::Bytes(z) => {
                    let len = resolve(z, fill[s]);
                    let data = make(len);
                    let a = sink.write_bytes_atomic(&data);
                    ensure_eq!(a.0, base[s] + want[s].len() as u64, "address returned by write_bytes_atomic of {len} bytes");
                    writes[s].push((a.0, len, oi));
                    want[s].extend(data);
                    fill[s] = (fill[s] + len) % MIN;
                }
                Op::Std(z) => {
                    let len = resolve(z, fill[s]);
                    let data = make(len);
                    let k = sink.as_std_write().write(&data).map_err(|e| format!("std write fails: {e}"))?;
                    ensure!(k <= len && (k > 0 || len == 0), "std write of {len} bytes reports {k}");
                    want[s].extend(&data[..k]);
                    fill[s] = (fill[s] + len) % MIN;
                }
                Op::StdWriteAll(v) => {
                    let mut w = sink.as_std_write();
                    for len in v {
                        let data = make(*len as usize);
                        w.write_all(&data).map_err(|e| format!("std write_all fails: {e}"))?;
                        want[s].extend(data);
                        fill[s] += *len as usize;
                    }
                }
                Op::Many { size, count, slice } => {
                    for k in 0..*count {
                        let data: Vec<u8> = (0..*size as usize).map(|i| content(oi + k as usize, i)).collect();
                        let a = if *slice {
                            sink.write_bytes_atomic(&data)
                        } else {
                            sink.write_atomic(data.len(), |b| b.copy_from_slice(&data))
                        };
                        ensure_eq!(a.0, base[s] + want[s].len() as u64, "address returned by write {k} of a run");
                        want[s].extend(data);
                        fill[s] = if fill[s] + *size as usize > MAX { *size as usize } else { fill[s] + *size as usize };
                    }
                    ctx.class("run of small writes");
                }
                Op::Panic(z, f) => {
                    let len = resolve(z, fill[s]);
                    let r = catch(|| {
                        sink.write_atomic(len, |b| {
                            let k = *f as usize * len / 256;
                            b[..k].fill(0xEE);
                            panic!("callback");
                        })
                    });
                    ensure!(r.is_err(), "the panic of a callback is lost");
                    // The next write tells how much of the stream the failed one has taken.
                    let data = make(1 + len % 5);
                    let a = if *f % 2 == 0 { sink.write_bytes_atomic(&data) } else { sink.write_atomic(data.len(), |b| b.copy_from_slice(&data)) };
                    let at = base[s] + want[s].len() as u64;
                    ensure!(a.0 >= at && a.0 - at <= len as u64, "address {} after a callback for {len} bytes at {at} panicked", a.0);
                    let hole = (a.0 - at) as usize;
                    let w = want[s].len();
                    holes[s].push(w..w + hole);
                    want[s].resize(w + hole, 0);
                    writes[s].push((a.0, data.len(), oi));
                    want[s].extend(&data);
                    fill[s] = (fill[s] + hole + data.len()) % MAX;
                    ctx.class("callback that panics");
                }
                Op::Flush => {
                    sink.as_std_write().flush().map_err(|e| format!("flush fails: {e}"))?;
                    fill[s] = 0;
                    flushed = true;
                }
            }
        }
        // End the sinks in a generated order.
        let mut order: Vec<usize> = vec![];
        let mut left: Vec<usize> = (0..n).collect();
        for e in case.end.iter().chain([0u8, 0, 0].iter()) {
            if !left.is_empty() {
                order.push(left.remove(*e as usize % left.len()));
            }
        }
        let mut got: Vec<Vec<u8>> = vec![vec![]; n];
        if let Some(r) = reader {
            for i in &order {
                sinks[*i] = None;
            }
            drop(builder);
            let mut all = r.join().unwrap_or_else(|_| panic!("harness: reader"))?;
            for i in 0..n {
                got[i] = std::mem::take(&mut all[case.tags[i] as usize]);
            }
        } else if case.file {
            for i in &order {
                sinks[*i] = None;
            }
            drop(builder);
            let bytes = std::fs::read(&path).expect("harness: read back");
            let pages = codec::parse_pages(&bytes).map_err(|e| format!("stored bytes are not a page sequence: {e}"))?;
            let split = measureme::split_streams(&bytes);
            for i in 0..n {
                got[i] = codec::join_pages(&bytes, &pages, case.tags[i]);
                let lib = split.get(&tag(case.tags[i])).cloned().unwrap_or_default();
                ensure!(lib == got[i], "split_streams disagrees with the page format for stream {}", case.tags[i]);
            }
            let total: usize = want.iter().map(|w| w.len()).sum();
            let stored: usize = pages.iter().map(|(_, r)| r.len()).sum();
            ensure_eq!(stored, total, "content bytes stored");
            ensure_eq!(split.len(), want.iter().filter(|w| !w.is_empty()).count(), "number of streams present");
            ctx.class("file storage");
            ctx.count("pages parsed", pages.len() as u64);
        } else {
            for i in order {
                got[i] = sinks[i].take().unwrap().into_bytes();
            }
            ctx.class("memory storage");
        }
        for i in 0..n {
            if got[i].len() == want[i].len() {
                for h in &holes[i] {
                    want[i][h.clone()].copy_from_slice(&got[i][h.clone()]);
                }
            }
            if got[i] != want[i] {
                let k = got[i].iter().zip(&want[i]).position(|(a, b)| a != b).unwrap_or(got[i].len().min(want[i].len()));
                return Err(format!(
                    "stream {} is not recovered: {} bytes written, {} recovered, first difference at {}",
                    case.tags[i], want[i].len(), got[i].len(), k
                ));
            }
            for (a, len, oi) in &writes[i] {
                let a = *a - base[i];
                let s = &got[i][a as usize..a as usize + *len];
                ensure!(s.iter().enumerate().all(|(k, b)| *b == content(*oi, k)), "bytes at address {a} are not those written there");
            }
            ctx.count("bytes", got[i].len() as u64);
        }
        let used = want.iter().filter(|w| !w.is_empty()).count();
        let big = want.iter().any(|w| w.len() > MIN);
        ctx.class_if(big, "page boundary crossed");
        ctx.class_if(flushed, "flush");
        ctx.class_if(used >= 2, "several streams");
        ctx.nontrivial_if(used >= 2 && (big || flushed));
        Ok(())
    }
}
