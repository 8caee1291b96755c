//! C20: the folded-stack file and the flame graph.
use super::c12::nonzero;
use crate::codec::{self, Layout, Meta};
use crate::driver::*;
use crate::model::{Gen, Hist};
use crate::tools;
use analyzeme::ProfilingData;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub hist: Hist,
    pub meta: Meta,
    pub layout: Layout,
    pub old: bool,
    pub prefix: bool,
}

fn unescape(s: &str) -> String {
    s.replace("&lt;", "<").replace("&gt;", ">").replace("&quot;", "\"").replace("&apos;", "'").replace("&amp;", "&")
}

struct Frame {
    name: String,
    title_samples: u64,
    y: i64,
    x: u64,
    w: u64,
}

fn attr<'a>(tag: &'a str, name: &str) -> Option<&'a str> {
    let k = format!(" {name}=\"");
    let i = tag.find(&k)? + k.len();
    tag[i..].split('"').next()
}

fn frames(svg: &str) -> Result<Vec<Frame>, String> {
    let mut v = vec![];
    for g in svg.split("<g><title>").skip(1) {
        let (title, rest) = g.split_once("</title>").ok_or("title without end")?;
        let rect = rest.split_once("<rect").and_then(|r| r.1.split_once("/>")).map(|r| r.0).ok_or("frame without rectangle")?;
        let title = unescape(title);
        let open = title.rfind(" (").ok_or_else(|| format!("frame title {title:?}"))?;
        let samples: String = title[open + 2..].split(' ').next().unwrap_or("").replace(',', "");
        let num = |n: &str| attr(rect, n).and_then(|s| s.parse::<u64>().ok()).ok_or_else(|| format!("attribute {n} of frame {title:?}: {rect:?}"));
        v.push(Frame {
            name: title[..open].to_string(),
            title_samples: samples.parse().map_err(|_| format!("samples in the title {title:?}"))?,
            y: num("y")? as i64,
            x: num("fg:x")?,
            w: num("fg:w")?,
        });
    }
    Ok(v)
}

/// Total width per path of the drawn frames.
fn paths(svg: &str) -> Result<BTreeMap<String, u64>, String> {
    let fs = frames(svg)?;
    let mut m = BTreeMap::new();
    // Other frames of that name lie above the root.
    let root_y = fs.iter().filter(|f| f.name == "all").map(|f| f.y).max().ok_or("no root frame")?;
    let mut by_level: BTreeMap<i64, Vec<&Frame>> = BTreeMap::new();
    for f in &fs {
        ensure_eq!(f.title_samples, f.w, "samples in the title of frame {:?} against its width", f.name);
        by_level.entry((f.y - root_y).abs()).or_default().push(f);
    }
    let levels: Vec<i64> = by_level.keys().copied().collect();
    let mut above: Vec<(u64, u64, String)> = vec![];
    for (i, l) in levels.iter().enumerate() {
        ensure!(i < 2 || l - levels[i - 1] == levels[1] - levels[0], "levels are not evenly spaced: {levels:?}");
        let mut row: Vec<(u64, u64, String)> = vec![];
        for f in &by_level[l] {
            let path = if i == 0 {
                String::new()
            } else {
                let Some(p) = above.iter().find(|p| p.0 <= f.x && f.x + f.w <= p.1) else {
                    return Err(format!("frame {:?} at {}+{} is not above any frame", f.name, f.x, f.w));
                };
                if p.2.is_empty() {
                    f.name.clone()
                } else {
                    format!("{};{}", p.2, f.name)
                }
            };
            ensure!(row.iter().all(|r| r.1 <= f.x || f.x + f.w <= r.0), "frame {path:?} overlaps another one");
            if i > 0 {
                *m.entry(path.clone()).or_default() += f.w;
            } else {
                m.insert("all".to_string(), f.w);
            }
            row.push((f.x, f.x + f.w, path));
        }
        above = row;
    }
    Ok(m)
}

pub struct P;
impl Prop for P {
    type Case = Case;
    const ID: &'static str = "C20";
    const RULE: &'static str = "Generated recordings (threads, nesting, recursion, gaps; sequences with very different and with similar durations), v8 and v9, given to the built stack_collapse, whose file is compared line by line with the stacks of the generated tree and with the library's folded stacks, and to the built flamegraph, whose SVG frames are put back together into stack prefixes and compared with the sums of the generated stacks. Non-trivial: at least three stacks of at least two depths and a drawn flame graph.";
    const ASSUMPTIONS: &'static [&'static str] = &[
        "labels without semicolons and line breaks, in flame graphs also without outer blanks, and not ending in a blank and a number (the folded format has no quoting)",
        "frames narrower than 0.01% of the total may be left out of the picture",
        "the frames of one stack prefix may be drawn in several pieces (inferno sorts lines as text)",
        "a profile without any time has no flame graph",
    ];
    fn cases(t: Tier) -> u32 {
        t.pick(12_000, 500_000)
    }
    fn strategy(_t: Tier) -> BoxedStrategy<Case> {
        let texts = prop_oneof![
            6 => crate::text::table_text().prop_map(|s| if s.len() > 260 { s[s.len() % 7..200].to_string() } else { s }),
            1 => "[a-z]{1,2}",
            1 => "[a-z<>&\"'=/]{1,6}",
            1 => "[a-z]{1,3}[0-9-]{1,3}",
            1 => "( [a-z]{1,3}|[a-z]{1,3} | )",
        ]
        .prop_map(|s: String| {
            // see ASSUMPTIONS
            let words = s.trim_end_matches(|c: char| c.is_ascii_digit() || c == '.');
            if words.len() < s.len() && words.ends_with(' ') {
                s + "x"
            } else {
                s
            }
        })
        .boxed();
        let g = |big, max_ops| Gen { texts: texts.clone(), max_ops, big_steps: big, max_args: 1, ..Gen::default() };
        (
            prop_oneof![3 => crate::model::hist(g(false, 40)), 2 => crate::model::hist(g(true, 40)), 1 => crate::model::hist(g(false, 90))],
            crate::model::meta(),
            crate::model::layout(),
            any::<bool>(),
            any::<bool>(),
        )
            .prop_map(|(hist, meta, layout, old, prefix)| Case { hist, meta, layout, old, prefix })
            .boxed()
    }
    fn fixed(_t: Tier) -> Vec<Case> {
        let mut v = vec![Case {
            hist: crate::model::long_hist(17_000),
            meta: Meta { start_ns: 1_700_000_000_000_000_001, pid: 7, cmd: "x".into() },
            layout: Layout { shapes: vec![0, 5, 2, 7], ..Layout::default() },
            old: false,
            prefix: true,
        }];
        for hist in crate::model::big_hists() {
            v.push(Case { hist, ..v[0].clone() });
        }
        v
    }
    fn check(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
        let dir = ctx.dir();
        let run = case.hist.run();
        let bytes = codec::encode_file(&case.meta, &run.events, &case.layout, if case.old { 8 } else { 9 });
        let stem = &tools::place(&dir.0, case.meta.pid / 24, "p")[..];
        let file = format!("{stem}.mm_profdata");
        tools::write(&dir.0.join(&file), &bytes);
        let want = run.stacks();
        let name = if case.prefix { stem } else { &file };

        if case.meta.pid % 3 == 0 {
            tools::stale(&dir.0.join("out.stacks_folded"));
            tools::stale(&dir.0.join("rustc.svg"));
        }
        tools::run("stack_collapse", &dir.0, &tools::args([name])).success("stack_collapse")?;
        let text = std::fs::read_to_string(dir.0.join("out.stacks_folded")).map_err(|e| format!("no folded stacks: {e}"))?;
        ensure!(text.is_empty() || text.ends_with('\n'), "the last line of the folded stacks is not ended");
        let mut got: BTreeMap<String, u64> = BTreeMap::new();
        for l in text.lines() {
            let (s, n) = l.rsplit_once(' ').ok_or_else(|| format!("line {l:?} in the folded stacks"))?;
            let n = n.parse().map_err(|_| format!("line {l:?} in the folded stacks"))?;
            ensure!(got.insert(s.to_string(), n).is_none(), "second line for the stack {s:?}");
        }
        let lib: BTreeMap<String, u64> = {
            let d = ProfilingData::from_paged_buffer(bytes, None).map_err(|e| e.to_string())?;
            analyzeme::collapse_stacks(&d).into_iter().collect()
        };
        ensure_eq!(got, lib, "folded-stack file against the library's folded stacks");
        ensure_eq!(nonzero(got), want, "folded-stack file");

        let total: u64 = want.values().sum();
        if total == 0 {
            ctx.class("no time");
            return Ok(());
        }
        if want.keys().any(|s| s.split(';').any(|l| l.trim() != l)) {
            ctx.class("labels with outer blanks");
            return Ok(());
        }
        tools::run("flamegraph", &dir.0, &tools::args([name])).success("flamegraph")?;
        let svg = std::fs::read_to_string(dir.0.join("rustc.svg")).map_err(|e| format!("no flame graph: {e}"))?;
        let drawn = paths(&svg)?;
        let mut sums: BTreeMap<String, u64> = BTreeMap::new();
        sums.insert("all".into(), total);
        for (s, n) in &want {
            for (i, _) in s.match_indices(';').chain([(s.len(), "")]) {
                *sums.entry(s[..i].to_string()).or_default() += n;
            }
        }
        let narrow = |n: u64| (n as u128) * 10_000 < total as u128 + 10_000;
        let exact = !want.values().any(|n| narrow(*n));
        let slack = if exact { 0 } else { (total as u128 * want.len() as u128 / 10_000) as u64 + want.len() as u64 };
        for (p, n) in &sums {
            let g = drawn.get(p).copied().unwrap_or(0);
            ensure!(g <= *n && n - g <= slack, "flame graph: {g} samples drawn for the stack prefix {p:?}, expected {n} (of {total})");
        }
        for p in drawn.keys() {
            ensure!(sums.contains_key(p), "flame graph: frames for {p:?}, which is no stack prefix");
        }
        let depths: std::collections::BTreeSet<usize> = want.keys().map(|s| s.matches(';').count()).collect();
        ctx.class_if(stem != "p", "profile in another directory");
        ctx.class_if(exact, "all frames wide enough to be drawn");
        ctx.class_if(run.spans().len() > 1, "several threads");
        ctx.class_if(want.contains_key("rustc"), "gaps");
        ctx.count("stacks", want.len() as u64);
        ctx.nontrivial_if(want.len() >= 3 && depths.len() >= 2);
        Ok(())
    }
}
