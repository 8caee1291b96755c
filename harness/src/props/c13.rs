//! C13: the Chrome trace.
use crate::codec::{self, Layout, Meta};
use crate::driver::*;
use crate::model::{Gen, Hist, Payload, Run};
use crate::tools;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::path::Path;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Profile {
    pub hist: Hist,
    pub meta: Meta,
    pub layout: Layout,
    pub old: bool,
    /// 0: named with extension, 1: named by prefix, 2, 3: in the directory, 4: a link in the directory
    pub place: u8,
    pub name: u8,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub profiles: Vec<Profile>,
    /// Minimum duration: (which interval, difference to its duration), or a fixed value.
    pub min: Option<(u16, i8)>,
    pub junk: bool,
    pub option_first: bool,
}

/// The events of a written trace.
pub fn read_trace(dir: &Path) -> Result<Vec<Value>, String> {
    let b = std::fs::read(dir.join("chrome_profiler.json")).map_err(|e| format!("no trace file: {e}"))?;
    let v: Value = serde_json::from_slice(&b).map_err(|e| format!("the trace is not JSON: {e}"))?;
    match v {
        Value::Array(a) => Ok(a),
        _ => Err("the trace is not a JSON array".into()),
    }
}

/// An event in comparable form.
fn norm(v: &Value) -> String {
    let mut v = v.clone();
    if let Some(o) = v.as_object_mut() {
        if o.get("args") == Some(&Value::Null) {
            o.remove("args");
        }
    }
    v.to_string()
}

pub fn expected(run: &Run, meta: &Meta, min: Option<u64>) -> Vec<Value> {
    let mut v = vec![];
    for e in &run.events {
        let Payload::Interval(a, b) = e.payload else { continue };
        if min.is_some_and(|m| (b - a) < m * 1000) {
            continue;
        }
        let mut o = json!({
            "name": e.label, "cat": e.kind, "ph": "X",
            "ts": (meta.start_ns + a) / 1000, "dur": (b - a) / 1000,
            "pid": meta.pid, "tid": e.tid,
        });
        if !e.args.is_empty() {
            let m: serde_json::Map<String, Value> =
                e.args.iter().enumerate().map(|(i, a)| (format!("arg{i}"), Value::from(a.clone()))).collect();
            o["args"] = Value::Object(m);
        }
        v.push(o);
    }
    v
}

pub fn crate_name(cmd: &str) -> Option<&str> {
    let i = cmd.find(" --crate-name ")? + " --crate-name ".len();
    cmd[i..].split(' ').next()
}

/// Splits a trace into (complete events, metadata events) per profile.
pub fn segments(trace: &[Value]) -> Result<Vec<(Vec<Value>, Vec<Value>)>, String> {
    let mut out = vec![];
    let mut cur: (Vec<Value>, Vec<Value>) = Default::default();
    for e in trace {
        match e["ph"].as_str() {
            Some("X") => {
                ensure!(cur.1.is_empty(), "complete event after the metadata events of its profile: {e}");
                cur.0.push(e.clone());
            }
            Some("M") => {
                cur.1.push(e.clone());
                if e["name"] == "process_sort_index" {
                    out.push(std::mem::take(&mut cur));
                }
            }
            _ => return Err(format!("unexpected element in the trace: {e}")),
        }
    }
    ensure!(cur.0.is_empty() && cur.1.is_empty(), "events after the last process sort index");
    Ok(out)
}

pub fn compare_segment(seg: &(Vec<Value>, Vec<Value>), want: &[Value], meta: &Meta, what: &str) -> Result<(), String> {
    let mut g: Vec<String> = seg.0.iter().map(norm).collect();
    let mut w: Vec<String> = want.iter().map(norm).collect();
    g.sort();
    w.sort();
    if g != w {
        let extra: Vec<_> = g.iter().filter(|x| !w.contains(x)).take(2).collect();
        let missing: Vec<_> = w.iter().filter(|x| !g.contains(x)).take(2).collect();
        return Err(format!("{what}: {} complete events in the trace, {} expected; unexpected: {extra:?}; missing: {missing:?}", g.len(), w.len()));
    }
    let name = crate_name(&meta.cmd);
    let names: Vec<&Value> = seg.1.iter().filter(|e| e["name"] == "process_name").collect();
    ensure_eq!(names.len(), usize::from(name.is_some()), "{what}: number of process names (command line {:?})", meta.cmd);
    if let Some(n) = name {
        ensure_eq!(names[0]["args"]["name"].as_str(), Some(n), "{what}: process name");
        ensure_eq!(names[0]["pid"].as_u64(), Some(meta.pid as u64), "{what}: pid of the process name");
    }
    let sort = seg.1.last().unwrap();
    ensure_eq!(sort["pid"].as_u64(), Some(meta.pid as u64), "{what}: pid of the sort index");
    ensure_eq!(sort["args"]["sort_index"].as_u64(), Some(meta.start_ns / 1000), "{what}: sort index");
    ensure_eq!(seg.1.len(), 1 + names.len(), "{what}: number of metadata events");
    Ok(())
}

pub struct P;
impl Prop for P {
    type Case = Case;
    const ID: &'static str = "C13";
    const RULE: &'static str = "One to four generated profiles (any conforming text, thread ids, all payloads, command lines with and without a crate name, v8 and v9), named as file, by prefix or found through --dir among other files, with an optional minimum duration at or next to an occurring duration; the JSON written by the built crox is parsed and compared per profile. Non-trivial: a profile with intervals and other events, and a second profile or a minimum duration.";
    const ASSUMPTIONS: &'static [&'static str] = &[
        "the order of the complete events within a profile and of the profiles within a directory is free",
        "profiles in one trace have different process ids",
    ];
    fn cases(t: Tier) -> u32 {
        t.pick(20_000, 800_000)
    }
    fn strategy(_t: Tier) -> BoxedStrategy<Case> {
        let meta = (
            prop_oneof![1 => Just(0u64), 3 => 0u64..2_000_000_000_000_000_000, 1 => (0u64..2_000_000_000_000, 0u64..3).prop_map(|(a, b)| a * 1000 + b)],
            any::<u32>(),
            prop_oneof![
                2 => "[a-z/]{1,8} --crate-name [a-z_]{1,6}( [a-z ]{0,6})?",
                1 => "[a-z/]{1,8} (-L [a-z]{1,3}|--crate-type lib|--crate-names x) ",
                1 => "[a-z/]{1,4} --crate-name [a-zéü\"\\\\_]{1,6} --crate-type (lib|bin) ",
                1 => "[a-z/]{1,4}( --crate-name [a-z]{1,3}){1,3}( --crate-name)? [a-z]{0,3}",
                1 => "[a-z/]{1,4} --crate-name [a-z\t\u{a0}\u{2003}\n=,-]{1,6}( [a-z\t]{0,3})?",
                1 => crate::text::any_text(),
            ],
        )
            .prop_map(|(start_ns, pid, cmd)| Meta { start_ns, pid, cmd });
        let profile = (
            crate::model::hist(Gen { max_ops: 25, ..Gen::default() }),
            meta,
            crate::model::layout(),
            any::<bool>(),
            0u8..5,
            any::<u8>(),
        )
            .prop_map(|(hist, meta, layout, old, place, name)| Profile { hist, meta, layout, old, place, name });
        (
            prop_oneof![3 => proptest::collection::vec(profile.clone(), 1..=1), 3 => proptest::collection::vec(profile, 1..=4)],
            proptest::option::of((any::<u16>(), -1i8..=1)),
            any::<bool>(),
            any::<bool>(),
        )
            .prop_map(|(profiles, min, junk, option_first)| Case { profiles, min, junk, option_first })
            .boxed()
    }
    fn fixed(_t: Tier) -> Vec<Case> {
        let p = |place, old| Profile {
            hist: crate::model::long_hist(9_000),
            meta: Meta { start_ns: 1_700_000_000_000_000_001, pid: 70, cmd: "rustc --crate-name core".into() },
            layout: Layout { shapes: vec![0, 5, 2, 7], ..Layout::default() },
            old,
            place,
            name: 0,
        };
        let mut v = vec![Case { profiles: vec![p(0, true), p(2, false)], min: None, junk: false, option_first: true }];
        // Many profiles, all in the directory or all named.
        for place in [2, 0] {
            let small = |i: usize| Profile { hist: crate::model::long_hist(1), ..p(place, i % 3 == 0) };
            v.push(Case { profiles: (0..70).map(small).collect(), min: None, junk: true, option_first: place == 2 });
        }
        for (i, hist) in crate::model::big_hists().into_iter().enumerate() {
            v.push(Case { profiles: vec![Profile { hist, ..p(0, i == 0) }], min: None, junk: false, option_first: false });
        }
        v
    }
    fn check(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
        let dir = ctx.dir();
        let d = &dir.0;
        let sub = d.join("profiles.d");
        std::fs::create_dir(&sub).expect("harness: dir");
        let mut named = vec![];
        let mut args: Vec<std::ffi::OsString> = vec![];
        let mut in_dir = vec![];
        let mut runs = vec![];
        for (i, p) in case.profiles.iter().enumerate() {
            let meta = Meta { pid: p.meta.pid / 8 * 8 + i as u32, ..p.meta.clone() };
            let run = p.hist.run();
            let bytes = codec::encode_file(&meta, &run.events, &p.layout, if p.old { 8 } else { 9 });
            // (the same file name may occur both in the directory and outside)
            let k = if p.place >= 2 { in_dir.len() } else { named.len() };
            let stem = match p.name % 6 {
                0 => format!("p-{k}"),
                1 => format!("crate_{k} x"),
                2 => format!("{k:05}"),
                3 => format!("crate.{k}"),
                // (hidden, but a file like any other)
                4 => format!(".crate-{k}"),
                _ => format!("~{k}#"),
            };
            let file = format!("{stem}.mm_profdata");
            if p.place >= 2 {
                if p.place == 4 {
                    ctx.class("link in the directory");
                    let real = d.join(format!("real{i}"));
                    tools::write(&real, &bytes);
                    std::os::unix::fs::symlink(&real, sub.join(&file)).expect("harness: link");
                } else {
                    tools::write(&sub.join(&file), &bytes);
                }
                in_dir.push(i);
            } else {
                tools::write(&d.join(&file), &bytes);
                args.push(if p.place == 0 || p.name % 6 == 3 { file.into() } else { stem.into() });
                named.push(i);
            }
            runs.push((run, meta));
        }
        if case.junk {
            ctx.class("other files in the directory");
            for n in ["notes.txt", "a.mm_profdata.bak", "mm_profdata", "x.events", "b.json"] {
                tools::write(&sub.join(n), b"not a profile");
            }
            std::fs::create_dir(sub.join("deeper")).expect("harness: dir");
        }
        let durs: Vec<u64> = runs.iter().flat_map(|(r, _)| r.nodes.iter().map(|n| n.end - n.start)).collect();
        let min = case.min.map(|(w, delta)| {
            let base = if durs.is_empty() { w as u64 } else { durs[w as usize % durs.len()] / 1000 };
            base.saturating_add_signed(delta as i64)
        });
        let mut opts: Vec<std::ffi::OsString> = vec![];
        if !in_dir.is_empty() || (case.junk && !named.is_empty()) {
            opts.push("--dir".into());
            opts.push("profiles.d".into());
        }
        if let Some(m) = min {
            opts.push("--minimum-duration".into());
            opts.push(m.to_string().into());
        }
        let all: Vec<_> = if case.option_first { opts.into_iter().chain(args).collect() } else { args.into_iter().chain(opts).collect() };
        if case.profiles[0].meta.pid % 3 == 0 {
            tools::stale(&d.join("chrome_profiler.json"));
        }
        tools::run("crox", d, &all).success(&format!("crox {all:?}"))?;
        let trace = read_trace(d)?;
        let segs = segments(&trace)?;
        ensure_eq!(segs.len(), runs.len(), "profiles in the trace (by process sort index)");
        for (k, i) in named.iter().enumerate() {
            let (run, meta) = &runs[*i];
            compare_segment(&segs[k], &expected(run, meta, min), meta, &format!("profile {i}, named as argument {k}"))?;
        }
        for seg in &segs[named.len()..] {
            let pid = seg.1.last().unwrap()["pid"].as_u64();
            let Some(pos) = in_dir.iter().position(|i| Some(runs[*i].1.pid as u64) == pid) else {
                return Err(format!("unexpected or repeated process {pid:?} among the profiles of the directory"));
            };
            let i = in_dir.remove(pos);
            let (run, meta) = &runs[i];
            compare_segment(seg, &expected(run, meta, min), meta, &format!("profile {i}, from the directory"))?;
        }
        let left_out = min.map_or(0, |m| durs.iter().filter(|d| **d < m * 1000).count());
        ctx.class_if(left_out > 0, "intervals left out by the minimum duration");
        ctx.class_if(runs.len() > 1, "several profiles");
        ctx.class_if(runs.iter().any(|(_, m)| crate_name(&m.cmd).is_some()), "crate name");
        ctx.count("complete events", segs.iter().map(|s| s.0.len() as u64).sum());
        let mixed = runs.iter().any(|(r, _)| !r.nodes.is_empty() && r.events.len() > r.nodes.len());
        ctx.nontrivial_if(mixed && (runs.len() > 1 || min.is_some()));
        Ok(())
    }
}
