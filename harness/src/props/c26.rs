//! C26: tools leave their inputs alone, write only their output, and refuse unusable inputs.
use crate::codec::{self, Layout, Meta};
use crate::driver::*;
use crate::model::{Gen, Hist, Payload};
use crate::tools;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeSet;
use std::ffi::OsString;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Damage {
    Missing,
    Empty,
    Magic([u8; 4]),
    Version(u32),
    Short(u8),
    /// this stream is left out
    Drop(u8),
    StreamMagic(u8, u8),
    StreamVersion(u8, u32),
    Directory,
    /// for saved analyses: cut there (of 65536)
    Cut(u16),
    /// for saved analyses: this is added to the end
    Tail(String),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub hist: Hist,
    pub meta: Meta,
    pub layout: Layout,
    pub tool: u8,
    /// number of profiles, where the tool takes several
    pub n: u8,
    pub old: u8,
    pub damage: Option<(u8, Damage)>,
    /// how the profiles are called
    pub name: u8,
    /// where they are and how they are named to the tool
    pub place: u8,
    pub stale: bool,
}

const TOOLS: u8 = 15;

pub struct P;
impl Prop for P {
    type Case = Case;
    const ID: &'static str = "C26";
    const LEVEL: &'static str = "fault_enumeration";
    const RULE: &'static str = "Every built tool in every mode (15 commands) is given one to four generated profiles (v8, v9, by prefix and by file name, in the working directory or another, by relative and absolute paths) or saved analyses, of which one may be missing, empty, of foreign magic or version, too short, without one of its streams, a directory or a cut or extended analysis; the directory is compared before and after. Non-trivial: an unusable input, or two or more inputs.";
    const ASSUMPTIONS: &'static [&'static str] = &[
        "what a tool leaves in its own output file when it reports failure is free",
        "a profile without any time has no flame graph",
    ];
    fn cases(t: Tier) -> u32 {
        t.pick(50_000, 2_000_000)
    }
    fn strategy(_t: Tier) -> BoxedStrategy<Case> {
        let version = || prop_oneof![2 => 0u32..8, 2 => 10u32..20, 1 => any::<u32>().prop_filter("known", |v| *v != 8 && *v != 9), 1 => (0u32..32).prop_map(|s| 9 ^ (1 << s)).prop_filter("known", |v| *v != 8)];
        let damage = prop_oneof![
            2 => Just(Damage::Missing),
            1 => Just(Damage::Empty),
            2 => proptest::sample::select(vec![*b"MMPE", *b"mmpd", *b"MMES", *b"\0\0\0\0", *b"DPMM", *b"{\"qu"]).prop_map(Damage::Magic),
            2 => version().prop_map(Damage::Version),
            1 => (1u8..8).prop_map(Damage::Short),
            2 => (0u8..3).prop_map(Damage::Drop),
            1 => (0u8..3, any::<u8>()).prop_map(|(s, b)| Damage::StreamMagic(s, b)),
            1 => (0u8..3, version()).prop_map(|(s, v)| Damage::StreamVersion(s, v)),
            1 => Just(Damage::Directory),
            3 => any::<u16>().prop_map(Damage::Cut),
            1 => proptest::sample::select(vec!["}", "x", "{}", "\n[]", "\0", "null"]).prop_map(|t| Damage::Tail(t.to_string())),
        ];
        let texts = crate::text::table_text().prop_map(|s| s.replace(' ', "_")).boxed();
        (
            crate::model::hist(Gen { texts, max_ops: 25, max_args: 1, max_threads: 1, strict: true, large: false, ..Gen::default() }),
            crate::model::meta(),
            crate::model::layout(),
            0..TOOLS,
            1u8..=4,
            any::<u8>(),
            proptest::option::weighted(0.6, (any::<u8>(), damage)),
            (any::<u8>(), any::<u8>()),
            any::<bool>(),
        )
            .prop_map(|(hist, meta, layout, tool, n, old, damage, (name, place), stale)| Case { hist, meta, layout, tool, n, old, damage, name, place, stale })
            .boxed()
    }
    fn check(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
        let dir = ctx.dir();
        let d = &dir.0;
        let mut hist = case.hist.clone();
        hist.threads.truncate(1);
        let run = hist.run();
        // (tool, first arguments, number of profiles, output, saved analyses)
        let many = case.n as usize;
        let (tool, head, n, output, json): (_, &[&str], _, Option<&str>, bool) = match case.tool % TOOLS {
            0 => ("crox", &[], many, Some("chrome_profiler.json"), false),
            1 => ("crox", &["--collapse-threads"], many, Some("chrome_profiler.json"), false),
            2 => ("crox", &["--dir", "more"], many, Some("chrome_profiler.json"), false),
            3 => ("stack_collapse", &[], 1, Some("out.stacks_folded"), false),
            4 => ("flamegraph", &[], 1, Some("rustc.svg"), false),
            5 => ("summarize", &["summarize"], 1, None, false),
            6 => ("summarize", &["summarize", "--json"], 1, Some(".json"), false),
            7 => ("summarize", &["diff"], 2, None, false),
            8 => ("summarize", &["diff", "--json"], 2, Some(".json"), false),
            9 => ("summarize", &["diff"], 2, None, true),
            10 => ("summarize", &["aggregate"], many, None, false),
            11 => ("summarize", &["diff", "--json"], 2, Some(".json"), true),
            12 => ("summarize", &["aggregate"], 1, None, false),
            13 => ("mmview", &[], 1, None, false),
            _ => ("mmedit", &["truncate"], 1, Some(".truncated.mm_profdata"), false),
        };
        if tool == "flamegraph" && !run.events.iter().any(|e| matches!(e.payload, Payload::Interval(a, b) if a < b)) {
            ctx.class("no time");
            return Ok(());
        }
        let (bad, damage) = match &case.damage {
            Some((i, x)) => (*i as usize % n, Some(x)),
            None => (usize::MAX, None),
        };
        let analysis = |i: usize| json && (i == 0 || case.old & 16 == 0);
        let mut args: Vec<OsString> = head.iter().map(OsString::from).collect();
        if head == ["--dir", "more"] {
            std::fs::create_dir(d.join("more")).expect("harness: dir");
        }
        let within = ["", "", "inputs", "a.b/c d"][case.place as usize >> 2 & 3];
        std::fs::create_dir_all(d.join(within)).expect("harness: dir");
        ctx.class_if(!within.is_empty(), "profiles in another directory");
        let mut out_name = output.map(str::to_string);
        let mut unusable = None;
        for i in 0..n {
            let version = if case.old >> i & 1 == 1 { 8 } else { 9 };
            // (a profile may be compared with a saved analysis which is named like it)
            let k = if i == 0 && json && output.is_some() && !analysis(1) && case.place & 1 == 1 { 1 } else { i };
            let stem = match case.name % 4 {
                0 => format!("p{k}"),
                1 => format!("crate-{k} x"),
                2 => format!("\u{e9}{k}"),
                _ => format!("a.b.{k}"),
            };
            // next to the last named profile
            let sub = head == ["--dir", "more"] && (i > 0 || case.place & 1 == 1);
            if output.is_some_and(|o| o.starts_with('.')) {
                out_name = Some(std::path::Path::new(within).join(format!("{stem}{}", output.unwrap())).to_string_lossy().into_owned());
            }
            let place = |file: &str| if sub { d.join("more").join(file) } else { d.join(within).join(file) };
            let named = |file: &str| if case.place & 2 == 2 { place(file).into_os_string() } else { std::path::Path::new(within).join(file).into_os_string() };
            let file = format!("{stem}.mm_profdata");
            let bytes = codec::encode_file(&case.meta, &run.events, &case.layout, version);
            if analysis(i) {
                // made by the tool itself
                tools::write(&place(&file), &bytes);
                tools::run("summarize", d, &[OsString::from("summarize"), "--json".into(), named(&file)]).success("summarize --json")?;
                if case.place & 16 == 0 || k != i {
                    std::fs::remove_file(place(&file)).map_err(|e| format!("summarize --json: the profile is gone ({e})"))?;
                } else {
                    ctx.class("the profile lies next to its saved analysis");
                }
                let f = place(&format!("{stem}.json"));
                let mut b = std::fs::read(&f).map_err(|e| format!("summarize --json of {file}: no {stem}.json ({e})"))?;
                if i == bad {
                    match damage.unwrap() {
                        Damage::Missing => b.clear(),
                        Damage::Cut(n) => b.truncate(b.trim_ascii_end().len() * *n as usize >> 16),
                        Damage::Short(n) => b.truncate(*n as usize),
                        Damage::Magic(m) => b = m.to_vec(),
                        Damage::Tail(t) => b.extend(t.bytes()),
                        _ => b = bytes,
                    }
                    unusable = Some(format!("{stem}.json: {damage:?}"));
                }
                if i == bad && matches!(damage, Some(Damage::Missing)) {
                    std::fs::remove_file(&f).expect("harness: remove");
                } else {
                    tools::write(&f, &b);
                }
                args.push(named(&format!("{stem}.json")));
                continue;
            }
            if tool == "summarize" && output.is_none() && case.place & 32 == 32 {
                tools::write(&place(&file), &bytes);
                tools::run("summarize", d, &[OsString::from("summarize"), "--json".into(), named(&file)]).success("summarize --json")?;
                std::fs::remove_file(place(&file)).map_err(|e| format!("summarize --json: the profile is gone ({e})"))?;
                ctx.class("a saved analysis lies next to its profile");
            }
            if i == bad {
                let mut streams = codec::encode_streams(&case.meta, &run.events, &case.layout, version);
                let mut b = bytes.clone();
                let mut refused = true;
                {
                    let stream = |s: u8, streams: &mut codec::Streams, f: &dyn Fn(&mut Vec<u8>)| {
                        f([&mut streams.events, &mut streams.data, &mut streams.index].into_iter().nth(s as usize % 3).unwrap());
                        codec::file_bytes(&codec::paginate(streams, &case.layout), version)
                    };
                    match damage.unwrap() {
                        Damage::Missing | Damage::Directory => {}
                        Damage::Empty => b.clear(),
                        Damage::Magic(m) => b[..4].copy_from_slice(m),
                        Damage::Version(v) => {
                            b[4..8].copy_from_slice(&v.to_le_bytes());
                            // mmedit: see C19
                            refused = tool != "mmedit" || *v != 7;
                        }
                        Damage::Short(n) => b.truncate(*n as usize % 8),
                        // (mmedit does not look into the streams)
                        Damage::Drop(s) => {
                            b = stream(*s, &mut streams, &|v| v.clear());
                            refused = tool != "mmedit";
                        }
                        Damage::StreamMagic(s, x) => {
                            b = stream(*s, &mut streams, &|v| v[*x as usize % 4] ^= 1 << (*x >> 2) % 8);
                            refused = tool != "mmedit";
                        }
                        Damage::StreamVersion(s, n) => {
                            b = stream(*s, &mut streams, &|v| v[4..8].copy_from_slice(&n.to_le_bytes()));
                            refused = tool != "mmedit";
                        }
                        Damage::Cut(_) | Damage::Tail(_) => refused = false,
                    }
                }
                match damage.unwrap() {
                    Damage::Missing if sub => {
                        // the directory itself is missing, or none
                        refused = true;
                        args[1] = if case.place & 64 == 64 { "nowhere" } else { "notes.json" }.into();
                        ctx.class("no directory");
                    }
                    Damage::Missing => {}
                    Damage::Directory => std::fs::create_dir(place(&file)).expect("harness: dir"),
                    _ => tools::write(&place(&file), &b),
                }
                if refused {
                    unusable = Some(format!("{file}: {damage:?}"));
                } else if tool == "mmedit" {
                    return Ok(());
                }
            } else {
                tools::write(&place(&file), &bytes);
            }
            if !sub {
                let by_prefix = tool != "mmedit" && case.name >> (2 + i) & 1 == 1;
                // (what is after the last dot of a prefix is replaced)
                let prefix = if case.name % 4 == 3 { format!("{stem}.x{i}") } else { stem.clone() };
                args.push(named(if by_prefix { &prefix } else { &file }));
            }
        }
        for other in ["notes.json", "x.mm_profdata.bak", "other.svg", "perf.events"] {
            tools::write(&d.join(other), other.as_bytes());
        }
        // the output is named like an input, which must not be overwritten
        let taken = json && out_name.as_ref().is_some_and(|o| d.join(o).exists());
        if taken {
            out_name = None;
        }
        if let (Some(o), true) = (&out_name, case.stale) {
            tools::stale(&d.join(o));
        }
        let before = tools::snapshot(d);
        let out = tools::run(tool, d, &args);
        let after = tools::snapshot(d);
        let what = format!("{tool} {args:?}");
        for (p, b) in &before {
            let name = p.to_string_lossy();
            if out_name.as_deref() == Some(&*name) {
                continue;
            }
            match after.get(p) {
                None => return Err(format!("{what}: {name} has been removed")),
                Some(a) => ensure!(a == b, "{what}: {name} has been changed"),
            }
        }
        let new: BTreeSet<String> = after.keys().filter(|p| !before.contains_key(*p)).map(|p| p.to_string_lossy().into_owned()).collect();
        let extra: Vec<&String> = new.iter().filter(|n| Some(*n) != out_name.as_ref()).collect();
        ensure!(extra.is_empty(), "{what}: unexpected files {extra:?}");
        ensure!(out.code.is_some(), "{what}: {}", out.describe());
        match unusable {
            Some(u) => {
                ctx.class("unusable input");
                ctx.class_if(n > 1, "unusable input among others");
                ensure!(!out.ok(), "{what} succeeds with {u}");
                ensure!(!out.stderr.trim().is_empty(), "{what} fails with {u} without any message");
                ctx.nontrivial();
            }
            None if taken => {
                ensure!(!out.ok(), "{what} succeeds although it cannot store its output");
                ctx.class("the output would replace an input");
                ctx.nontrivial();
            }
            None => {
                ensure!(out.ok(), "{what}: {}", out.describe());
                if let Some(o) = &out_name {
                    ensure!(after.contains_key(std::path::Path::new(o)), "{what}: no {o}");
                }
                ctx.class("usable inputs");
                ctx.nontrivial_if(n > 1);
            }
        }
        ctx.class(tool);
        Ok(())
    }
}
