//! C25: tools whose output cannot be stored.
use crate::codec::{self, Layout, Meta};
use crate::driver::*;
use crate::model::{Gen, Hist};
use crate::tools;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::ffi::OsString;
use std::path::Path;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Fault {
    /// no file may get longer than this (taken from the complete output's length)
    Limit(At),
    /// writing the output fails from the first byte on
    Full,
    /// the output is written through a link
    Link,
    /// one call that writes (or reads) fails there, and all others work
    Once { read: bool, at: At, errno: u8 },
    /// calls transfer only some bytes
    Short { read: bool, step: u16 },
    /// every other call is interrupted
    Interrupted { read: bool },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum At {
    /// counted from the start
    Start(u32),
    /// counted back from the end
    End(u32),
    /// part of the length (of 65536)
    Part(u16),
    /// multiple of 1024, give or take
    Block(u8, i8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub hist: Hist,
    pub other: Option<Hist>,
    pub meta: Meta,
    pub layout: Layout,
    pub old: bool,
    pub tool: u8,
    pub fault: Fault,
}

const COMMANDS: u8 = 18;

struct Command {
    tool: &'static str,
    args: Vec<OsString>,
    /// where the output goes, if not to standard output
    file: Option<&'static str>,
}

fn command(case: &Case) -> Command {
    let c = |tool, args: &[&str], file| Command { tool, args: args.iter().map(OsString::from).collect(), file };
    match case.tool % COMMANDS {
        0 => c("crox", &["p.mm_profdata"], Some("chrome_profiler.json")),
        1 => c("crox", &["p.mm_profdata", "q"], Some("chrome_profiler.json")),
        2 => c("stack_collapse", &["p.mm_profdata"], Some("out.stacks_folded")),
        3 => c("flamegraph", &["p"], Some("rustc.svg")),
        4 => c("summarize", &["summarize", "--json", "p"], Some("p.json")),
        5 => c("summarize", &["diff", "--json", "q", "p"], Some("p.json")),
        6 => c("mmedit", &["truncate", "p.mm_profdata"], Some("p.truncated.mm_profdata")),
        7 => c("mmview", &["p"], None),
        8 => c("summarize", &["summarize", "p"], None),
        9 => c("summarize", &["diff", "p", "q"], None),
        10 => c("summarize", &["aggregate", "p", "q"], None),
        11 => c("crox", &["--dir", "."], Some("chrome_profiler.json")),
        12 => c("crox", &["--collapse-threads", "p", "q.mm_profdata"], Some("chrome_profiler.json")),
        13 => c("summarize", &["diff", "--json", "q.json", "p"], Some("p.json")),
        14 => c("summarize", &["diff", "q.json", "p"], None),
        15 => c("summarize", &["summarize", "-p", "1", "p"], None),
        16 => c("crox", &["p", "--minimum-duration", "2"], Some("chrome_profiler.json")),
        _ => c("mmview", &["--thread-id", "1", "p"], None),
    }
}

/// The same bytes in some order (arguments and rows of equal rank have none).
fn mixed(mut b: Vec<u8>) -> Vec<u8> {
    b.sort_unstable();
    b
}

pub struct P;
impl Prop for P {
    type Case = Case;
    const ID: &'static str = "C25";
    const LEVEL: &'static str = "fault_enumeration";
    const RULE: &'static str = "Generated profiles given to each built tool, once without faults, then with its output file (or standard output) limited to a generated size (around both ends and block borders of the complete output) by RLIMIT_FSIZE, or on a full device, behind a link, with one failing call at a generated byte of its reads or writes (all others work), or with short or interrupted calls: success may be reported only with the complete output in place, and must be where nothing fails. Non-trivial: something fails, or calls are short or interrupted.";
    const ASSUMPTIONS: &'static [&'static str] = &["what a tool leaves behind when it reports failure is free"];
    fn cases(t: Tier) -> u32 {
        t.pick(6_000, 300_000)
    }
    fn strategy(_t: Tier) -> BoxedStrategy<Case> {
        let texts = crate::text::table_text().prop_map(|s| if s.len() > 100 { s[..70 + s.len() % 30].to_string() } else { s.replace(' ', "_") }).boxed();
        let g = |max_ops| crate::model::hist(Gen { texts: texts.clone(), max_ops, max_args: 1, ..Gen::default() });
        let size = || prop_oneof![
            3 => (0u32..40).prop_map(At::End),
            1 => (0u32..9000).prop_map(At::End),
            1 => (0u32..40).prop_map(At::Start),
            2 => any::<u16>().prop_map(At::Part),
            2 => (any::<u8>(), -2i8..=2).prop_map(|(b, d)| At::Block(b, d)),
        ];
        (
            prop_oneof![3 => g(40), 1 => g(90)],
            proptest::option::of(g(20)),
            crate::model::meta(),
            crate::model::layout(),
            any::<bool>(),
            any::<u8>(),
            prop_oneof![
                6 => size().prop_map(Fault::Limit),
                1 => Just(Fault::Full),
                1 => Just(Fault::Link),
                6 => (proptest::bool::weighted(0.3), size(), any::<u8>()).prop_map(|(read, at, errno)| Fault::Once { read, at, errno }),
                2 => (any::<bool>(), prop_oneof![0u16..20, 0u16..5000]).prop_map(|(read, step)| Fault::Short { read, step }),
                1 => any::<bool>().prop_map(|read| Fault::Interrupted { read }),
            ],
            prop_oneof![4 => Just(0u32), 2 => 2u32..80],
        )
            .prop_map(|(mut hist, other, meta, layout, old, tool, fault, repeat)| {
                if repeat > 0 {
                    hist.repeat = repeat;
                }
                Case { hist, other, meta, layout, old, tool, fault }
            })
            .boxed()
    }
    fn fixed(_t: Tier) -> Vec<Case> {
        let mut v = vec![];
        for tool in 0..COMMANDS {
            for hist in [crate::model::long_hist(3), crate::model::long_hist(1_500), crate::model::wide_hist(300, 3)] {
                for fault in [Fault::Full, Fault::Limit(At::End(1)), Fault::Limit(At::End(0)), Fault::Limit(At::Part(30_000)), Fault::Once { read: false, at: At::Part(30_000), errno: 0 }, Fault::Once { read: false, at: At::End(1), errno: 1 }, Fault::Once { read: true, at: At::Part(30_000), errno: 1 }, Fault::Link] {
                    v.push(Case { hist: hist.clone(), other: None, meta: Meta::default(), layout: Layout::default(), old: tool % 2 == 0, tool, fault });
                }
            }
        }
        v
    }
    fn check(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
        let cmd = command(case);
        // Only one thread can be aggregated, and runs of the same events.
        let aggregate = cmd.args[0] == "aggregate";
        let mut hist = case.hist.clone();
        if aggregate {
            hist.threads.truncate(1);
        }
        let run = hist.run();
        if cmd.tool == "flamegraph" && run.stacks().values().sum::<u64>() == 0 {
            ctx.class("no time");
            return Ok(());
        }
        let bytes = codec::encode_file(&case.meta, &run.events, &case.layout, if case.old { 8 } else { 9 });
        let other = case.other.as_ref().filter(|_| !aggregate).map_or(bytes.clone(), |h| codec::encode_file(&case.meta, &h.run().events, &case.layout, 9));
        let put = |d: &Path| {
            tools::write(&d.join("p.mm_profdata"), &bytes);
            tools::write(&d.join("q.mm_profdata"), &other);
        };
        let what = format!("{} {:?}", cmd.tool, cmd.args);
        let dir = ctx.dir();
        let (a, b) = (&dir.0.join("a"), &dir.0.join("b"));
        for d in [a, b] {
            std::fs::create_dir(d).expect("harness: dir");
        }
        put(a);
        put(b);
        let saved = cmd.args.iter().any(|a| a == "q.json");
        let mut read_bytes = bytes.len() as u64;
        if saved {
            tools::run("summarize", a, &tools::args(["summarize", "--json", "q"])).success("summarize --json q")?;
            std::fs::copy(a.join("q.json"), b.join("q.json")).expect("harness: copy");
            read_bytes += std::fs::metadata(b.join("q.json")).expect("harness: size").len();
        } else if cmd.args.iter().any(|a| a == "q" || a == "q.mm_profdata" || a == ".") {
            read_bytes += other.len() as u64;
        }
        let out = tools::run(cmd.tool, a, &cmd.args).success(&what)?;
        let read = |d: &Path, name: &str| std::fs::read(d.join(name)).map_err(|e| format!("{what} reports success, but {name}: {e}"));
        let want = match cmd.file {
            Some(f) => read(a, f)?,
            None => out.stdout.into_bytes(),
        };
        let len = want.len() as u64;
        let target = b.join(cmd.file.unwrap_or("stdout.txt"));
        let mut limit = None;
        let mut plan = None;
        let mut fits = true;
        let place = |at: &At, len: u64| match at {
            At::Start(n) => *n as u64,
            At::End(n) => len.saturating_sub(*n as u64),
            At::Part(p) => len * *p as u64 >> 16,
            At::Block(k, d) => ((1 + *k as u64 % (1 + len / 1024)) * 1024).saturating_add_signed(*d as i64),
        };
        // all that is read, or written
        let total = |read: bool| if !read { len } else { read_bytes };
        let stream = |read: bool| match (read, cmd.file) {
            (true, _) => 'i',
            (false, Some(_)) => 'o',
            (false, None) => 's',
        };
        match &case.fault {
            Fault::Limit(at) => {
                ctx.class("size limit");
                let n = place(at, len);
                fits = n >= len;
                limit = Some(n);
            }
            Fault::Once { read, at, errno } => {
                ctx.class(if *read { "a read fails" } else { "a write fails, later ones work" });
                let n = place(at, total(*read));
                let e = [libc::ENOSPC, libc::EIO, libc::EDQUOT][if *read { 1 } else { *errno as usize % 3 }];
                plan = Some(format!("{} e {n} {e}", stream(*read)));
            }
            Fault::Short { read, step } => {
                ctx.class("short transfers");
                plan = Some(format!("{} s {} 0", stream(*read), 1 + total(*read) / 3000 + *step as u64));
            }
            Fault::Interrupted { read } => {
                ctx.class("interrupted transfers");
                plan = Some(format!("{} i 0 0", stream(*read)));
            }
            Fault::Full => {
                ctx.class("full device");
                fits = len == 0;
                if cmd.file.is_some() {
                    std::os::unix::fs::symlink("/dev/full", &target).expect("harness: link");
                }
            }
            Fault::Link => {
                ctx.class("link");
                if cmd.file.is_some() {
                    std::os::unix::fs::symlink(b.join("elsewhere"), &target).expect("harness: link");
                }
            }
        }
        let stdout = match (cmd.file, &case.fault) {
            (Some(_), _) => None,
            (None, Fault::Full) => Some(Path::new("/dev/full").to_path_buf()),
            (None, _) => Some(target.clone()),
        };
        let mark = dir.0.join("fired");
        let out = tools::run_with(cmd.tool, b, &cmd.args, stdout.as_deref(), limit, plan.as_deref().map(|p| (p, &*mark)));
        let fits = if plan.is_some() { !mark.exists() } else { fits };
        ensure!(out.code.is_some(), "{what} with {:?} (limit {limit:?}): {}", case.fault, out.describe());
        if out.ok() {
            let got = if matches!(case.fault, Fault::Full) { vec![] } else { read(b, cmd.file.unwrap_or("stdout.txt"))? };
            ensure!(
                got.len() as u64 == len,
                "{what} reports success with {:?} (limit {limit:?}), but its output has {} of {len} bytes",
                case.fault,
                got.len()
            );
            ensure!(mixed(got) == mixed(want), "{what} reports success with {:?}, but its output differs", case.fault);
        } else {
            ensure!(!fits, "{what} fails with {:?} although nothing stands against it (limit {limit:?}): {}", case.fault, out.describe());
        }
        ctx.class(cmd.tool);
        ctx.count("output bytes", len);
        ctx.class_if(!fits, "fails");
        ctx.nontrivial_if(!fits || matches!(case.fault, Fault::Short { .. } | Fault::Interrupted { .. }));
        Ok(())
    }
}
