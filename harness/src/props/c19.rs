//! C19: truncating profiles.
use crate::codec::{self, Layout, Meta};
use crate::driver::*;
use crate::load::{epoch, same_event};
use crate::model::{Gen, Hist};
use crate::tools;
use analyzeme::ProfilingData;
use measureme::{EventId, Profiler};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Case {
    Profile {
        hist: Hist,
        meta: Meta,
        layout: Layout,
        old: bool,
        /// events in the first event page
        first: u32,
        name: u8,
    },
    /// A file written by the profiler itself, with this number of events.
    Recorded { events: u32, string_every: u32 },
    /// Not a profile, or of an unknown version.
    Refused { bytes: Vec<u8>, version: Option<u32>, like: bool },
}

fn truncate(dir: &std::path::Path, name: &str) -> tools::Out {
    tools::run("mmedit", dir, &tools::args(["truncate", name]))
}

/// Compares a truncated file with its original, and gives (kept, all) events.
fn compare(orig: &[u8], got: &[u8], size: usize) -> Result<(usize, usize), String> {
    ensure!(got.len() >= 8 && got[..8] == orig[..8], "the truncated file has another header: {:?}", &got[..got.len().min(8)]);
    let po = codec::parse_pages(&orig[8..]).expect("harness: original pages");
    let pg = codec::parse_pages(&got[8..]).map_err(|e| format!("pages of the truncated file: {e}"))?;
    for (tag, what) in [(codec::TAG_DATA, "string data"), (codec::TAG_INDEX, "string index")] {
        ensure!(codec::join_pages(&orig[8..], &po, tag) == codec::join_pages(&got[8..], &pg, tag), "the {what} stream differs after truncation");
    }
    let all = codec::join_pages(&orig[8..], &po, codec::TAG_EVENTS);
    let kept = codec::join_pages(&got[8..], &pg, codec::TAG_EVENTS);
    let first = po.iter().find(|p| p.0 == codec::TAG_EVENTS).map(|p| p.1.len()).unwrap_or(0);
    ensure!(kept == all[..first], "the event stream after truncation is not the first event page ({} bytes, first page {first} bytes)", kept.len());
    Ok(((kept.len() - 8) / size, (all.len() - 8) / size))
}

pub struct P;
impl Prop for P {
    type Case = Case;
    const ID: &'static str = "C19";
    const RULE: &'static str = "Generated recordings in v8 and v9 with random page layouts whose first event page holds a random number of whole events, and files of the real profiler with more than one event page, truncated by the built mmedit: the output is loaded and each event, the metadata and the string streams are compared with the original's prefix; other files (magic and version damaged, short, empty) must be refused. Non-trivial: some but not all events are kept, or a refusal.";
    const ASSUMPTIONS: &'static [&'static str] = &[
        "the first event page ends between two events, as in every file the profiler writes",
        "whether version 7, which no current tool can load, is accepted is left open",
    ];
    fn cases(t: Tier) -> u32 {
        t.pick(40_000, 1_500_000)
    }
    fn strategy(_t: Tier) -> BoxedStrategy<Case> {
        let prof = (
            crate::model::hist(Gen { max_ops: 40, ..Gen::default() }),
            crate::model::meta(),
            crate::model::layout(),
            any::<bool>(),
            prop_oneof![4 => 0u32..12, 1 => 0u32..256],
            any::<u8>(),
        )
            .prop_map(|(hist, meta, layout, old, first, name)| Case::Profile { hist, meta, layout, old, first, name });
        let version = prop_oneof![0u32..7, 10u32..20, any::<u32>().prop_filter("known", |v| !(7..=9).contains(v))];
        let refused = (proptest::collection::vec(any::<u8>(), 0..40), proptest::option::of(version), any::<bool>())
            .prop_map(|(bytes, version, like)| Case::Refused { bytes, version, like });
        prop_oneof![
            60 => prof,
            12 => refused,
            1 => (1u32..40_000, 1u32..2000).prop_map(|(events, string_every)| Case::Recorded { events, string_every }),
        ]
        .boxed()
    }
    fn fixed(_t: Tier) -> Vec<Case> {
        let mut v: Vec<Case> = [1u32, 8190, 8191, 8192, 8193, 16_400, 30_000]
            .iter()
            .map(|n| Case::Recorded { events: *n, string_every: 100 })
            .collect();
        // pages larger than the profiler writes
        for (first, old) in [(8192u32, true), (12_000, false), (8193, false), (19_999, true)] {
            v.push(Case::Profile { hist: crate::model::long_hist(5000), meta: Meta::default(), layout: Layout::default(), old, first, name: 0 });
        }
        // strings larger than a page, and pages of strings larger than the profiler writes
        for (old, n) in [(true, 300_000), (false, 700_000)] {
            let hist = Hist { texts: ["long ", "x", "other "].iter().map(|t| t.chars().cycle().take(n).collect()).collect(), ..crate::model::long_hist(20) };
            v.push(Case::Profile { hist, meta: Meta::default(), layout: Layout { cuts: vec![(codec::TAG_DATA, 1 << 24)], ..Layout::default() }, old, first: 30, name: 1 });
        }
        for bytes in [&b""[..], b"MMPD", b"MMPD\x09\0\0", b"MMPE\x09\0\0\0", b"MMES\x09\0\0\0", b"mmpd\x08\0\0\0", b"MMPD\x0a\0\0\0", b"MMPD\0\0\0\0", b"MMPD\x08\x01\0\0"] {
            v.push(Case::Refused { bytes: bytes.to_vec(), version: None, like: false });
        }
        v
    }
    fn check(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
        let dir = ctx.dir();
        let d = &dir.0;
        match case {
            Case::Profile { hist, meta, layout, old, first, name } => {
                let run = hist.run();
                let version = if *old { 8 } else { 9 };
                let size = if *old { 24 } else { 32 };
                let mut layout = layout.clone();
                // The first cut of the event stream ends between events.
                let n = (8 + *first % (run.events.len() as u32 + 1) * size).max(8);
                match layout.cuts.iter_mut().find(|c| c.0 % 3 == codec::TAG_EVENTS) {
                    Some(c) => c.1 = n,
                    None => layout.cuts.push((codec::TAG_EVENTS, n)),
                }
                let bytes = codec::encode_file(meta, &run.events, &layout, version);
                let stem = ["prof", "a-1234", "with blank", "x.y"][*name as usize % 4];
                let path = tools::place(d, *name as u32 / 4, stem);
                let (file, out_file) = (format!("{path}.mm_profdata"), format!("{path}.truncated.mm_profdata"));
                tools::write(&d.join(&file), &bytes);
                let mut files: Vec<_> = tools::snapshot(d).into_keys().chain([match path.strip_prefix("up/../") {
                    Some(p) => format!("{p}.truncated.mm_profdata").into(),
                    None => d.join(&out_file).strip_prefix(d).unwrap().components().collect(),
                }]).collect();
                files.sort();
                if meta.pid % 3 == 0 {
                    tools::stale(&d.join(&out_file));
                }
                let out = truncate(d, &file);
                out.success(&format!("mmedit truncate of a v{version} profile"))?;
                ensure_eq!(tools::snapshot(d).into_keys().collect::<Vec<_>>(), files, "files after truncation");
                ensure!(std::fs::read(d.join(&file)).unwrap() == bytes, "the original file was changed");
                let got = std::fs::read(d.join(&out_file)).unwrap();
                let (kept, all) = compare(&bytes, &got, size as usize)?;
                let p = ProfilingData::from_paged_buffer(got, None).map_err(|e| format!("the truncated file does not load: {e}"))?;
                let m = p.metadata();
                ensure_eq!(m.start_time, epoch(meta.start_ns), "start time");
                ensure_eq!(m.process_id, meta.pid, "process id");
                ensure_eq!(m.cmd, meta.cmd, "cmd");
                ensure_eq!(p.num_events(), kept, "number of events of the truncated profile");
                for (i, e) in p.iter_full().enumerate() {
                    same_event(&e, &run.events[i], meta.start_ns).map_err(|e| format!("event {i} of the truncated profile: {e}"))?;
                }
                ctx.class_if(*old, "v8");
                ctx.class_if(!*old, "v9");
                ctx.class_if(kept < all, "events dropped");
                ctx.count("events kept", kept as u64);
                ctx.nontrivial_if(kept > 0 && kept < all);
            }
            Case::Recorded { events, string_every } => {
                ctx.class("recorded by the profiler");
                {
                    let p = Profiler::new(d.join("rec")).map_err(|e| format!("profiler: {e}"))?;
                    let mut id = EventId::INVALID;
                    let kind = p.alloc_string("Query");
                    for i in 0..*events {
                        if i % string_every == 0 {
                            id = EventId::from_label(p.alloc_string(&format!("label {i}")[..]));
                        }
                        p.record_integer_event(kind, id, i % 7, i as u64);
                    }
                }
                let bytes = std::fs::read(d.join("rec.mm_profdata")).expect("harness: recorded file");
                truncate(d, "rec.mm_profdata").success("mmedit truncate of a recorded profile")?;
                ensure!(std::fs::read(d.join("rec.mm_profdata")).unwrap() == bytes, "the original file was changed");
                let got = std::fs::read(d.join("rec.truncated.mm_profdata")).map_err(|e| format!("no output: {e}"))?;
                let (kept, all) = compare(&bytes, &got, 32)?;
                let (a, b) = (
                    ProfilingData::from_paged_buffer(bytes, None).map_err(|e| format!("the original does not load: {e}"))?,
                    ProfilingData::from_paged_buffer(got, None).map_err(|e| format!("the truncated file does not load: {e}"))?,
                );
                ensure_eq!(all, *events as usize, "events recorded");
                ensure_eq!(b.num_events(), kept, "number of events of the truncated profile");
                for (i, (x, y)) in a.iter_full().zip(b.iter_full()).enumerate() {
                    ensure!(x == y, "event {i} differs: original {x:?}, truncated {y:?}");
                }
                ensure_eq!(format!("{:?}", a.metadata()), format!("{:?}", b.metadata()), "metadata");
                ctx.class_if(kept < all, "events dropped");
                ctx.nontrivial_if(kept > 0 && kept < all);
            }
            Case::Refused { bytes, version, like } => {
                let mut b = match (like, version) {
                    (true, Some(v)) => {
                        let mut f = codec::encode_file(&Meta::default(), &[], &Layout::default(), 9);
                        f[4..8].copy_from_slice(&v.to_le_bytes());
                        f
                    }
                    (true, None) => {
                        let mut f = codec::encode_file(&Meta::default(), &[], &Layout::default(), 9);
                        let i = bytes.first().copied().unwrap_or(0) as usize % 4;
                        f[i] ^= bytes.get(1).copied().unwrap_or(1).max(1);
                        f
                    }
                    (false, Some(v)) => [b"MMPD", &v.to_le_bytes()[..], bytes].concat(),
                    (false, None) => bytes.clone(),
                };
                if b.len() >= 8 && &b[..4] == b"MMPD" && (7..=9).contains(&u32::from_le_bytes(b[4..8].try_into().unwrap())) {
                    b[0] = b'N';
                }
                tools::write(&d.join("p.mm_profdata"), &b);
                let out = truncate(d, "p.mm_profdata");
                ensure!(!out.ok(), "mmedit truncate accepts a file starting with {:?}", &b[..b.len().min(16)]);
                ensure!(out.code.is_some(), "mmedit truncate of a file starting with {:?}: {}", &b[..b.len().min(16)], out.describe());
                ensure_eq!(tools::listing(d), ["p.mm_profdata"], "files after a refusal");
                ensure!(std::fs::read(d.join("p.mm_profdata")).unwrap() == b, "the refused file was changed");
                ctx.class("refused");
                ctx.nontrivial();
            }
        }
        Ok(())
    }
}
