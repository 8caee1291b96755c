//! C17: aggregated profiles.
use crate::codec::{self, Layout, Meta};
use crate::driver::*;
use crate::model::{Ev, Payload, KINDS};
use crate::tools;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Op {
    Open(u8, u8, Vec<u8>),
    Close,
    Instant(u8, u8, Vec<u8>),
    Integer(u8, u8, u32),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Change {
    /// other label, kind or arguments
    Rename(u8),
    Remove,
    Double,
    /// exchange with the next operation
    Swap,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub texts: Vec<String>,
    pub ops: Vec<Op>,
    /// per profile: thread id, first time, steps (used cyclically), old format
    pub profiles: Vec<(u32, u64, Vec<u64>, bool)>,
    pub layout: Layout,
    /// (profile, operation, change)
    pub change: Option<(u8, u16, Change)>,
}

#[derive(Clone, Debug, PartialEq)]
enum Kind {
    Start,
    End,
    Instant,
}
type Desc = (String, String, Vec<String>);
#[derive(Clone, Debug, PartialEq)]
struct Point {
    kind: Kind,
    this: Desc,
    parent: Option<Desc>,
}

fn show(d: &Desc) -> String {
    let k = if d.0 == "Query" || d.0 == "GenericActivity" { String::new() } else { format!("{} ", d.0) };
    format!("{k}`{}({})`", d.1, d.2.join(", "))
}

fn describe(a: &Point, b: &Point) -> String {
    match (&a.kind, &b.kind) {
        (Kind::Start, Kind::End) => show(&a.this),
        (Kind::Start, _) => format!("in {}, before {}", show(&a.this), show(&b.this)),
        (_, Kind::End) => format!("in {}, after {}", show(&b.this), show(&a.this)),
        _ => match &a.parent {
            Some(p) => format!("in {}, between {} and {}", show(p), show(&a.this), show(&b.this)),
            None => format!("between {} and {}", show(&a.this), show(&b.this)),
        },
    }
}

struct Built {
    points: Vec<(Point, u64)>,
    events: Vec<Ev>,
}

fn build(texts: &[String], ops: &[Op], tid: u32, start: u64, steps: &[u64]) -> Built {
    let text = |i: &u8| texts[*i as usize % texts.len()].clone();
    let kind = |i: &u8| KINDS[*i as usize % KINDS.len()].to_string();
    let mut now = start;
    let mut stack: Vec<(Desc, u64)> = vec![];
    let mut b = Built { points: vec![], events: vec![] };
    let mut n = 0;
    // Boundaries fall together only where that leaves no doubt about their order: a parent and its first
    // child start, the last child and its parent end, or one ends when the next of its level starts; no
    // interval has length zero.
    let mut tick = |now: &mut u64, points: &[(Point, u64)], next: Kind| {
        let least = match (points.last().map(|p| &p.0.kind), next) {
            (Some(Kind::Start), Kind::Start) | (Some(Kind::End), Kind::End) | (Some(Kind::End), Kind::Start) => 0,
            _ => 1,
        };
        *now += if steps.is_empty() { 1 } else { steps[n % steps.len()].max(least) };
        n += 1;
    };
    let ev = |d: &Desc, payload| Ev { kind: d.0.clone(), label: d.1.clone(), args: d.2.clone(), tid, payload };
    let extra = ops.iter().fold(0usize, |d, o| match o {
        Op::Open(..) => d + 1,
        Op::Close => d.saturating_sub(1),
        _ => d,
    });
    for op in ops.iter().cloned().chain(std::iter::repeat(Op::Close).take(extra)) {
        match op {
            Op::Open(k, l, a) => {
                tick(&mut now, &b.points, Kind::Start);
                let d = (kind(&k), text(&l), a.iter().map(text).collect());
                b.points.push((Point { kind: Kind::Start, this: Desc::clone(&d), parent: stack.last().map(|s| s.0.clone()) }, now));
                stack.push((d, now));
            }
            Op::Close => {
                if let Some((d, s)) = stack.pop() {
                    tick(&mut now, &b.points, Kind::End);
                    b.points.push((Point { kind: Kind::End, this: d.clone(), parent: stack.last().map(|s| s.0.clone()) }, now));
                    b.events.push(ev(&d, Payload::Interval(s, now)));
                }
            }
            Op::Instant(k, l, a) => {
                tick(&mut now, &b.points, Kind::Instant);
                let d = (kind(&k), text(&l), a.iter().map(text).collect());
                b.points.push((Point { kind: Kind::Instant, this: Desc::clone(&d), parent: stack.last().map(|s| s.0.clone()) }, now));
                b.events.push(ev(&d, Payload::Instant(now)));
            }
            Op::Integer(k, l, v) => b.events.push(ev(&(kind(&k), text(&l), vec![]), Payload::Integer(v as u64))),
        }
    }
    b
}

#[derive(Debug, PartialEq, Clone)]
enum Src {
    One(String),
    Many(usize),
}

fn extremes(values: impl Iterator<Item = (u64, String)>, largest: bool) -> Vec<(u64, Src)> {
    let mut m: BTreeMap<u64, Src> = BTreeMap::new();
    for (v, d) in values {
        m.entry(v)
            .and_modify(|s| *s = Src::Many(if let Src::Many(n) = s { *n + 1 } else { 2 }))
            .or_insert(Src::One(d));
    }
    let n = m.len();
    let skip = if largest { n.saturating_sub(10) } else { 0 };
    m.into_iter().skip(skip).take(10).collect()
}

/// (title, announced number, entries (value, description)).
fn parse(out: &str) -> Result<Vec<(String, usize, Vec<(String, String)>)>, String> {
    let mut v: Vec<(String, usize, Vec<(String, String)>)> = vec![];
    for l in out.lines() {
        if l.trim().is_empty() {
            continue;
        }
        if !l.starts_with(' ') {
            let w: Vec<&str> = l.trim_end_matches(':').split_whitespace().collect();
            ensure!(w.len() == 3, "unexpected line {l:?}");
            v.push((format!("{} {}", w[0], w[2]), w[1].parse().map_err(|_| format!("unexpected line {l:?}"))?, vec![]));
            continue;
        }
        let entries = &mut v.last_mut().ok_or_else(|| format!("unexpected line {l:?}"))?.2;
        let t = l.trim_start();
        let head = t.split_once(" ns: ").filter(|(n, _)| n.trim_start_matches('±').parse::<f64>().is_ok());
        match head {
            Some((n, d)) if l.len() - t.len() <= 2 => entries.push((n.to_string(), d.trim().to_string())),
            _ => {
                let e = entries.last_mut().ok_or_else(|| format!("unexpected line {l:?}"))?;
                e.1.push(' ');
                e.1.push_str(t.trim_end());
            }
        }
    }
    Ok(v)
}

fn check_section(
    got: Option<&(String, usize, Vec<(String, String)>)>,
    title: &str,
    want: &[(u64, Src)],
    total: usize,
    half: bool,
) -> Result<(), String> {
    let Some((t, n, entries)) = got else { return Err(format!("no section {title:?}")) };
    ensure_eq!(t, title, "section");
    ensure_eq!(*n, want.len(), "{title}: number announced");
    ensure_eq!(entries.len(), want.len(), "{title}: number of entries");
    for ((v, d), (wv, wd)) in entries.iter().zip(want) {
        if half {
            let g: Option<f64> = v.strip_prefix('±').and_then(|s| s.parse().ok());
            ensure!(g == Some(*wv as f64 / 2.0), "{title}: value {v:?}, expected ±{}", *wv as f64 / 2.0);
        } else {
            ensure_eq!(v.parse::<u64>().ok(), Some(*wv), "{title}: value");
        }
        match wd {
            Src::One(w) => ensure_eq!(d, w, "{title}: description of {v}"),
            Src::Many(w) => {
                let (c, p) = d
                    .split_once(" occurrences, or ")
                    .and_then(|(c, p)| Some((c.parse::<usize>().ok()?, p.strip_suffix('%')?.parse::<f64>().ok()?)))
                    .ok_or_else(|| format!("{title}: description of {v}: {d:?}, expected {w} occurrences"))?;
                ensure_eq!(c, *w, "{title}: occurrences of {v}");
                let want = *w as f64 / total as f64 * 100.0;
                ensure!((p - want).abs() < 0.0051, "{title}: share of {v}: {p}, expected {want}");
            }
        }
    }
    Ok(())
}

pub struct P;
impl Prop for P {
    type Case = Case;
    const ID: &'static str = "C17";
    const RULE: &'static str = "One to five profiles with the same generated single-threaded event structure (nesting, instants, integers in between, repeated labels) and their own timings (few or many different durations; sometimes only one interval differs), aggregated by the built summarize and compared with the durations of the generated timeline; or one of the profiles has one event renamed, removed, doubled or moved, which must be refused. Non-trivial: two or more profiles with differing timings and at least three intervals, or a refused set.";
    const ASSUMPTIONS: &'static [&'static str] = &[
        "a single thread, and no two event boundaries of a profile at the same time where their order would be open",
        "sets of profiles with fewer than two event boundaries each have no intervals and are not compared",
        "labels and arguments without line breaks",
    ];
    fn cases(t: Tier) -> u32 {
        t.pick(30_000, 1_200_000)
    }
    fn strategy(_t: Tier) -> BoxedStrategy<Case> {
        let args = || prop_oneof![3 => Just(vec![]).boxed(), 1 => proptest::collection::vec(any::<u8>(), 0..3).boxed(), 1 => proptest::collection::vec(any::<u8>(), 3..14).boxed()];
        let op = prop_oneof![
            5 => (0u8..KINDS.len() as u8, any::<u8>(), args()).prop_map(|(k, l, a)| Op::Open(k, l, a)),
            5 => Just(Op::Close),
            2 => (0u8..KINDS.len() as u8, any::<u8>(), args()).prop_map(|(k, l, a)| Op::Instant(k, l, a)),
            1 => (0u8..KINDS.len() as u8, any::<u8>(), any::<u32>()).prop_map(|(k, l, v)| Op::Integer(k, l, v)),
        ];
        let step = prop_oneof![2 => 1u64..5, 2 => 0u64..3, 2 => 1u64..40, 1 => 1u64..5_000_000_000];
        let profile = (any::<u32>(), 0u64..100_000, proptest::collection::vec(step, 0..40), any::<bool>());
        let change = (
            any::<u8>(),
            any::<u16>(),
            prop_oneof![any::<u8>().prop_map(Change::Rename), Just(Change::Remove), Just(Change::Double), Just(Change::Swap)],
        );
        (
            proptest::collection::vec(crate::text::table_text(), 1..5),
            prop_oneof![4 => proptest::collection::vec(op.clone(), 0..30), 1 => proptest::collection::vec(op, 20..90)],
            prop_oneof![12 => proptest::collection::vec(profile.clone(), 1..=5), 1 => proptest::collection::vec(profile, 6..=14)],
            crate::model::layout(),
            proptest::option::weighted(0.25, change),
            any::<(bool, u16, u64)>(),
        )
            .prop_map(|(texts, ops, mut profiles, layout, change, (same, at, by))| {
                if same {
                    // equal timings, but for one step
                    let s = profiles[0].2.clone();
                    let n = profiles.len();
                    for (i, p) in profiles.iter_mut().enumerate() {
                        p.2 = s.clone();
                        if i + 1 == n && !p.2.is_empty() {
                            let k = at as usize % p.2.len();
                            p.2[k] = by % 50;
                        }
                    }
                }
                Case { texts, ops, profiles, layout, change }
            })
            .boxed()
    }
    fn fixed(_t: Tier) -> Vec<Case> {
        let profile = |i: u64, m: u64| (i as u32 * 7, 13 * i, (0..97u64).map(|k| 1 + (k * (i + 3)) % m).collect::<Vec<u64>>(), i % 2 == 1);
        let texts = vec!["a".to_string(), "b".into(), "c".into()];
        let long: Vec<Op> = (0..35_000u32).flat_map(|i| [Op::Open((i % 3) as u8, (i % 5) as u8, vec![]), Op::Close]).collect();
        let deep: Vec<Op> = (0..300u32).map(|i| Op::Open(0, (i % 3) as u8, vec![])).chain((0..300).map(|_| Op::Close)).collect();
        vec![
            Case { texts: texts.clone(), ops: long.clone(), profiles: (0..3).map(|i| profile(i, 2)).collect(), layout: Layout::default(), change: None },
            Case { texts: texts.clone(), ops: long.clone(), profiles: (0..3).map(|i| profile(i, 90)).collect(), layout: Layout::default(), change: None },
            Case { texts: texts.clone(), ops: long, profiles: (0..2).map(|i| profile(i, 90)).collect(), layout: Layout::default(), change: Some((1, 65_530, Change::Rename(1))) },
            Case { texts, ops: deep, profiles: (0..20).map(|i| profile(i, 4000)).collect(), layout: Layout::default(), change: None },
        ]
    }
    fn check(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
        let dir = ctx.dir();
        let mut built = vec![];
        let mut args: Vec<std::ffi::OsString> = vec!["aggregate".into()];
        for (i, (tid, start, steps, old)) in case.profiles.iter().enumerate() {
            let mut ops = case.ops.clone();
            if let Some((p, at, change)) = &case.change {
                if *p as usize % case.profiles.len() == i && !ops.is_empty() {
                    let at = *at as usize % ops.len();
                    match change {
                        Change::Rename(by) => match &mut ops[at] {
                            Op::Open(k, l, a) | Op::Instant(k, l, a) => match by % 5 {
                                3 | 4 if !a.is_empty() => {
                                    // the last or any argument
                                    let n = a.len() - 1;
                                    let i = if by % 5 == 3 { n } else { *by as usize % a.len() };
                                    a[i] = a[i].wrapping_add(1)
                                }
                                0 => *k = k.wrapping_add(1),
                                1 => *l = l.wrapping_add(1),
                                _ => a.push(*by),
                            },
                            _ => {}
                        },
                        Change::Remove => drop(ops.remove(at)),
                        Change::Double => {
                            let o = ops[at].clone();
                            ops.insert(at, o);
                        }
                        Change::Swap => {
                            let b = (at + 1) % ops.len();
                            ops.swap(at, b);
                        }
                    }
                }
            }
            let b = build(&case.texts, &ops, *tid, *start, steps);
            // (two of a directory have different names, two of a name are in different directories)
            let name = format!("{}.mm_profdata", tools::place(&dir.0, *tid / 3 + i as u32, &format!("r{}", if *tid % 3 == 0 { i } else { i / 8 })));
            let name = if dir.0.join(&name).exists() { format!("r{i}-.mm_profdata") } else { name };
            tools::write(&dir.0.join(&name), &codec::encode_file(&Meta::default(), &b.events, &case.layout, if *old { 8 } else { 9 }));
            args.push(name.into());
            built.push(b);
        }
        let shape = |b: &Built| -> Vec<Point> { b.points.iter().map(|p| p.0.clone()).collect() };
        let first = shape(&built[0]);
        let out = tools::run("summarize", &dir.0, &args);
        if built.iter().any(|b| shape(b) != first) {
            if built.iter().all(|b| b.points.len() < 2) {
                return Ok(());
            }
            ctx.class("differing sequences");
            ctx.nontrivial();
            ensure!(!out.ok(), "profiles with different event sequences are accepted: {built:?}\n{}", out.stdout, built = case.change);
            ensure!(out.code.is_some(), "aggregate of differing profiles: {}", out.describe());
            return Ok(());
        }
        let out = out.success("aggregate")?;
        let n = first.len().saturating_sub(1);
        let per: Vec<(u64, u64, String)> = (0..n)
            .map(|i| {
                let d: Vec<u64> = built.iter().map(|b| b.points[i + 1].1 - b.points[i].1).collect();
                (*d.iter().min().unwrap(), *d.iter().max().unwrap(), describe(&first[i], &first[i + 1]))
            })
            .collect();
        let s = parse(&out.stdout)?;
        ensure_eq!(s.len(), 4, "number of sections in\n{}", out.stdout);
        let it = || per.iter().cloned();
        check_section(s.first(), "Smallest durations", &extremes(it().map(|p| (p.0, p.2)), false), n, false)?;
        check_section(s.get(1), "Largest durations", &extremes(it().map(|p| (p.1, p.2)), true), n, false)?;
        check_section(s.get(2), "Smallest variances", &extremes(it().map(|p| (p.1 - p.0, p.2)), false), n, true)?;
        check_section(s.get(3), "Largest variances", &extremes(it().map(|p| (p.1 - p.0, p.2)), true), n, true)?;
        let varied = per.iter().any(|p| p.0 != p.1);
        let distinct = per.iter().map(|p| p.0).collect::<std::collections::BTreeSet<_>>().len();
        ctx.class_if(distinct > 10, "more than ten different durations");
        ctx.class_if(varied, "timings differ");
        ctx.class_if(per.iter().any(|p| p.0 == 0), "boundaries at the same time");
        ctx.class_if(distinct < n, "repeated durations");
        ctx.count("intervals", n as u64);
        ctx.nontrivial_if(built.len() >= 2 && n >= 3 && varied);
        Ok(())
    }
}
