//! C07: session metadata for every command line. Each case starts a real process with the
//! generated arguments, which creates a profiler.
use crate::codec::{self, Layout, Meta};
use crate::driver::*;
use analyzeme::ProfilingData;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::ffi::OsString;
use std::os::unix::ffi::OsStringExt;
use std::os::unix::process::CommandExt;
use std::process::{Command, Stdio};
use std::time::{Duration, SystemTime, UNIX_EPOCH};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Arg {
    Text(String),
    Bytes(Vec<u8>),
    Long(u32, char),
}

impl Arg {
    fn bytes(&self) -> Vec<u8> {
        let mut b = match self {
            Arg::Text(s) => s.clone().into_bytes(),
            Arg::Bytes(b) => b.clone(),
            Arg::Long(n, c) => {
                let n = *n as usize / c.len_utf8();
                std::iter::repeat(*c).take(n).collect::<String>().into_bytes()
            }
        };
        b.retain(|b| *b != 0);
        b
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub arg0: Option<Arg>,
    pub args: Vec<Arg>,
    /// Instead of starting a process: a profile with this metadata, put together here.
    #[serde(default)]
    pub made: Option<(Meta, Layout)>,
    /// Instead of starting a process: a profiler made here when the time of day is this (ns).
    #[serde(default)]
    pub at: Option<u64>,
}

fn arg() -> BoxedStrategy<Arg> {
    prop_oneof![
        3 => "[ -~]{0,10}".prop_map(Arg::Text),
        2 => proptest::sample::select(vec!["--crate-name", "x", "'", "\"", "\\", "\\\"", "\\u0041", "\\u{41}", "{", "}", "\\n", "\n", "\t", "\r", "\x08", "\x0c", "\x0b", "\x1b", "\x7f",
            "\u{80}", "\u{85}", "\u{a0}", "\u{ad}", "\u{2028}", "\u{2029}", "\u{feff}", "\u{fffd}", "\u{ffff}", "\u{10ffff}", "\u{1f600}", "e\u{301}", "\u{200b}", "", " ", "  ", "a b ", "/", "null", "%s", "\", \"x\": \"", "\x1e", "\x11"])
            .prop_map(|s| Arg::Text(s.to_string())),
        3 => proptest::collection::vec(any::<char>(), 0..10).prop_map(|v| Arg::Text(v.into_iter().collect())),
        2 => proptest::collection::vec(prop_oneof![1u8..0x20, Just(b'"'), Just(b'\\'), Just(b'\''), Just(0x7f), 0x20u8..0x7f].prop_map(|b| b as char), 0..10).prop_map(|v| Arg::Text(v.into_iter().collect())),
        2 => proptest::collection::vec(1u8..=255, 0..10).prop_map(Arg::Bytes),
        1 => (1u32..2000, any::<char>()).prop_map(|(n, c)| Arg::Long(n, c)),
    ]
    .boxed()
}

/// Runs in the started process.
pub fn child() -> i32 {
    let stem = std::env::var_os("VH_STEM").unwrap();
    let now = || SystemTime::now().duration_since(UNIX_EPOCH).unwrap().as_nanos() as u64;
    let t0 = now();
    let p = measureme::Profiler::new(&stem);
    let t1 = now();
    let p = match p {
        Ok(p) => p,
        Err(_) => return 7,
    };
    let k = p.alloc_string("Query");
    let l = p.alloc_string("label");
    p.record_integer_event(k, measureme::EventId::from_label(l), 3, 4);
    drop(p);
    let mut f = OsString::from(&stem);
    f.push(".times");
    std::fs::write(f, format!("{t0} {t1}")).unwrap();
    0
}

pub struct P;
impl Prop for P {
    type Case = Case;
    const ID: &'static str = "C07";
    const RULE: &'static str = "Argument vectors (and program names) of printable, quoted, control, non-ASCII, invalid UTF-8 and very long arguments; most cases start a real process with exactly these arguments, which makes a profiler; its profile must load with the same command line, process id and a start time within the creation. Some are made here at a generated time of day (simulated clock, from the epoch to the year 2262). The others are files with arbitrary metadata (start time to the nanosecond) made by an independent encoder. Non-trivial: some argument has a character other than ASCII letters, digits, '-', '_', '/' or '.'.";
    const ASSUMPTIONS: &'static [&'static str] = &[
        "a trailing blank after the last argument is taken as part of the separation",
        "bytes that are not UTF-8 have no characters: they are compared after lossy conversion",
        "the system clock does not step backwards during a case",
    ];
    fn cases(t: Tier) -> u32 {
        t.pick(40_000, 1_200_000)
    }
    fn strategy(_t: Tier) -> BoxedStrategy<Case> {
        let many = prop_oneof![
            20 => proptest::collection::vec(arg(), 0..6),
            2 => proptest::collection::vec(arg(), 6..200),
            1 => proptest::collection::vec((100_000u32..120_000, prop_oneof![Just('x'), Just('"'), Just('\u{e9}'), Just('\x01')]).prop_map(|(n, c)| Arg::Long(n, c)), 1..5),
        ];
        let start = || prop_oneof![
            2 => 1_500_000_000_000_000_000u64..2_000_000_000_000_000_000,
            1 => any::<u64>().prop_map(|n| n >> 1),
            1 => 0u64..2_000_000_000,
            1 => (0u64..5_000_000_000, prop_oneof![Just(0u64), Just(999_999_999), 0u64..1_000_000_000]).prop_map(|(s, n)| s * 1_000_000_000 + n),
        ];
        let pid = prop_oneof![1 => any::<u32>(), 1 => 1u32..70_000, 1 => Just(u32::MAX), 1 => Just(0u32)];
        let cmd = prop_oneof![3 => crate::text::any_text(), 1 => proptest::collection::vec(any::<char>(), 0..40).prop_map(|v| v.into_iter().collect())];
        let made = (start(), pid, cmd, crate::model::layout())
            .prop_map(|(start_ns, pid, cmd, layout)| Case { arg0: None, args: vec![], made: Some((Meta { start_ns, pid, cmd }, layout)), at: None });
        let real = (prop_oneof![2 => Just(None).boxed(), 1 => arg().prop_map(Some).boxed()], many).prop_map(|(arg0, args)| Case { arg0, args, made: None, at: None });
        let at = start().prop_map(|ns| Case { arg0: None, args: vec![], made: None, at: Some(ns) });
        prop_oneof![10 => real, 2 => made, 1 => at].boxed()
    }
    fn fixed(_t: Tier) -> Vec<Case> {
        // every ASCII character and some others on their own
        (1u32..=0xFF)
            .chain([0x2028, 0x2029, 0xD7FF, 0xE000, 0xFEFF, 0xFFFD, 0xFFFE, 0xFFFF, 0x10000, 0x10FFFF])
            .map(|c| Case { arg0: None, args: vec![Arg::Text(format!("a{}b", char::from_u32(c).unwrap()))], made: None, at: None })
            .chain([1_000, 5_000].map(|n| Case { arg0: None, args: (0..n).map(|i| Arg::Text(format!("{}{i}", if i % 7 == 3 { "\"" } else { "-C" }))).collect(), made: None, at: None }))
            .chain((0x80..=0xFF).map(|b| Case { arg0: None, args: vec![Arg::Bytes(vec![b'x', b, b'y'])], made: None, at: None }))
            .collect()
    }
    fn check(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
        if let Some((meta, layout)) = &case.made {
            let b = codec::encode_file(meta, &[], layout, 9);
            let d = match catch(|| ProfilingData::from_paged_buffer(b, None)) {
                Ok(Ok(d)) => d,
                Ok(Err(e)) => return Err(format!("the profile cannot be read: {e}")),
                Err(m) => return Err(format!("the profile cannot be read: {m}")),
            };
            let m = d.metadata();
            ensure_eq!(m.cmd, meta.cmd, "command line");
            ensure_eq!(m.process_id, meta.pid, "process id");
            ensure_eq!(m.start_time, crate::load::epoch(meta.start_ns), "start time");
            ctx.class("metadata put together by the harness");
            ctx.nontrivial_if(!meta.cmd.is_ascii() || meta.start_ns % 1000 != 0);
            return Ok(());
        }
        let dir = ctx.dir();
        let stem = dir.0.join("p");
        if let Some(at) = case.at {
            let since = |t: SystemTime| t.duration_since(UNIX_EPOCH).map(|d| d.as_nanos()).unwrap_or(0);
            let clock = crate::clock::Sim::default();
            let _simulated = clock.enter();
            clock.freeze(at as i64);
            let t0 = SystemTime::now();
            let p = catch(|| measureme::Profiler::new(&stem));
            let t1 = SystemTime::now();
            match p {
                Err(m) => return Err(format!("creating the profiler at {at} fails: {m}")),
                Ok(Err(e)) => return Err(format!("creating the profiler at {at} fails: {e}")),
                Ok(Ok(p)) => drop(p),
            }
            let d = match catch(|| ProfilingData::new(&dir.0.join("p.mm_profdata"))) {
                Err(m) => return Err(format!("the profile made at {at} cannot be read: {m}")),
                Ok(Err(e)) => return Err(format!("the profile made at {at} cannot be read: {e}")),
                Ok(Ok(d)) => d,
            };
            let m = d.metadata();
            ensure!(m.start_time >= t0 && m.start_time <= t1, "start time {} is not between {} and {} ns, when the profiler was created", since(m.start_time), since(t0), since(t1));
            ensure_eq!(m.process_id, std::process::id(), "process id");
            ctx.class("time of day chosen");
            ctx.nontrivial();
            return Ok(());
        }
        let exe = std::env::current_exe().expect("harness: exe");
        let arg0 = match &case.arg0 {
            Some(a) => a.bytes(),
            None => exe.clone().into_os_string().into_vec(),
        };
        let args: Vec<Vec<u8>> = case.args.iter().map(|a| a.bytes()).collect();
        let mut child = Command::new(&exe)
            .arg0(OsString::from_vec(arg0.clone()))
            .args(args.iter().map(|a| OsString::from_vec(a.clone())))
            .env("VH_CHILD", "c07")
            .env("VH_STEM", &stem)
            .stdin(Stdio::null())
            .stdout(Stdio::null())
            .stderr(Stdio::piped())
            .spawn()
            .expect("harness: spawn");
        let pid = child.id();
        let mut err = String::new();
        use std::io::Read;
        let mut e = vec![];
        let _ = child.stderr.take().unwrap().read_to_end(&mut e);
        err.push_str(&String::from_utf8_lossy(&e));
        let st = child.wait().expect("harness: wait");
        ensure!(st.success(), "creating the profiler fails ({st}): {}", err.chars().take(400).collect::<String>());
        let times = std::fs::read_to_string(dir.0.join("p.times")).expect("harness: times");
        let (t0, t1) = times.split_once(' ').unwrap();
        let (t0, t1): (u64, u64) = (t0.parse().unwrap(), t1.parse().unwrap());

        let file = dir.0.join("p.mm_profdata");
        let d = match catch(|| ProfilingData::new(&file)) {
            Err(m) => return Err(format!("the profile cannot be read: {m}")),
            Ok(Err(e)) => return Err(format!("the profile cannot be read: {e}")),
            Ok(Ok(d)) => d,
        };
        let m = d.metadata();
        let want = std::iter::once(&arg0)
            .chain(&args)
            .map(|a| String::from_utf8_lossy(a).into_owned())
            .collect::<Vec<_>>()
            .join(" ");
        let got = &m.cmd[..];
        if got != want && got.strip_suffix(' ') != Some(&want[..]) {
            let at = got.char_indices().zip(want.chars()).find(|((_, a), b)| a != b).map_or(got.len().min(want.len()), |((i, _), _)| i);
            let cut = |s: &str| s.chars().take(500).collect::<String>();
            return Err(format!("command line differs from byte {at} on: got {:?}, expected {:?}", cut(got), cut(&want)));
        }
        ensure_eq!(m.process_id, pid, "process id");
        let start = m.start_time.duration_since(UNIX_EPOCH).map_err(|e| format!("start time before the epoch: {e}"))?;
        if t1 >= t0 {
            ensure!(
                start >= Duration::from_nanos(t0) && start <= Duration::from_nanos(t1),
                "start time {start:?} is not between {t0} and {t1} ns, when the profiler was created"
            );
        }
        ensure_eq!(d.num_events(), 1, "events");
        let e = d.iter_full().next().unwrap();
        ensure!(e.event_kind == "Query" && e.label == "label" && e.thread_id == 3, "the recorded event differs: {e:?}");
        let special = |a: &Vec<u8>| a.iter().any(|b| !b.is_ascii_alphanumeric() && !b"-_/.".contains(b));
        ctx.class_if(args.iter().any(|a| std::str::from_utf8(a).is_err()), "not UTF-8");
        ctx.class_if(args.iter().any(|a| a.iter().any(|b| *b < 0x20)), "control character");
        ctx.class_if(args.iter().any(|a| std::str::from_utf8(a).is_ok() && !a.is_ascii()), "non-ASCII text");
        ctx.class_if(args.iter().any(|a| a.contains(&b'"') || a.contains(&b'\\') || a.contains(&b'\'')), "quotes or backslashes");
        ctx.class_if(want.len() > 256 * 1024, "longer than a page");
        ctx.nontrivial_if(args.iter().any(special) || case.arg0.as_ref().is_some_and(|a| special(&a.bytes())));
        Ok(())
    }
}
