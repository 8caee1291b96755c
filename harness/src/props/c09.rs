//! C09: v8 and v9 profiles with the same content mean the same.
use crate::codec::{self, Layout, Meta};
use crate::driver::*;
use crate::load::{epoch, same_event};
use crate::model::{Ev, Gen, Hist, Payload};
use analyzeme::{collapse_stacks, AnalysisResults, ProfilingData};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::path::Path;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub hist: Hist,
    pub meta: Meta,
    pub l8: Layout,
    pub l9: Layout,
    /// 0: our encoder, 1: the real old and current writers
    pub real: bool,
}

macro_rules! writer {
    ($name:ident, $m:ident) => {
        fn $name(path: &Path, meta: &Meta, events: &[Ev], layout: &Layout) -> Result<(), String> {
            use std::sync::Arc;
            use $m::file_header::*;
            use $m::{EventId, PageTag, RawEvent, SerializationSinkBuilder, StringComponent, StringId, StringTableBuilder};
            let mut file = std::fs::File::create(path).expect("harness: file");
            write_file_header(&mut file, FILE_MAGIC_TOP_LEVEL).map_err(|e| e.to_string())?;
            let b = SerializationSinkBuilder::new_from_file(file).map_err(|e| e.to_string())?;
            let sink = b.new_sink(PageTag::Events);
            write_file_header(&mut sink.as_std_write(), FILE_MAGIC_EVENT_STREAM).map_err(|e| e.to_string())?;
            let st = StringTableBuilder::new(Arc::new(b.new_sink(PageTag::StringData)), Arc::new(b.new_sink(PageTag::StringIndex)))
                .map_err(|e| e.to_string())?;
            st.alloc_metadata(&codec::meta_json(meta)[..]);
            // keeps composites clear of an address dependent defect of the old decoder
            st.alloc(&"p".repeat(200)[..]);
            let mut virt = 0u32;
            let mut late: Vec<(StringId, StringId)> = vec![];
            for (i, e) in events.iter().enumerate() {
                let sh = if layout.shapes.is_empty() { 0 } else { layout.shapes[i % layout.shapes.len()] };
                let kind = st.alloc(&e.kind[..]);
                let mut v = |id: StringId| {
                    let v = StringId::new_virtual(virt);
                    virt += 1;
                    if sh & 64 != 0 {
                        late.push((v, id));
                    } else if sh & 32 != 0 {
                        st.bulk_map_virtual_to_single_concrete_string(vec![v].into_iter(), id);
                    } else {
                        st.map_virtual_to_concrete_string(v, id);
                    }
                    v
                };
                let id = match sh % 3 {
                    0 => EventId::from_label(st.alloc(&crate::load::full_id(e)[..])),
                    1 => {
                        let id = st.alloc(&crate::load::full_id(e)[..]);
                        EventId::from_virtual(v(id))
                    }
                    _ => {
                        let mut l = st.alloc(&e.label[..]);
                        if sh & 16 != 0 {
                            l = v(l);
                        }
                        let args: Vec<StringId> = e.args.iter().map(|a| st.alloc(&a[..])).collect();
                        let mut cs = vec![StringComponent::Ref(l)];
                        for a in &args {
                            cs.push(StringComponent::Value("\x1E"));
                            cs.push(StringComponent::Ref(*a));
                        }
                        EventId::from_label(st.alloc(&cs[..]))
                    }
                };
                let raw = match e.payload {
                    Payload::Interval(a, b) => RawEvent::new_interval(kind, id, e.tid, a, b),
                    Payload::Instant(a) => RawEvent::new_instant(kind, id, e.tid, a),
                    Payload::Integer(a) => RawEvent::new_integer(kind, id, e.tid, a),
                };
                sink.write_atomic(std::mem::size_of::<RawEvent>(), |b| raw.serialize(b));
            }
            for (v, id) in late {
                st.map_virtual_to_concrete_string(v, id);
            }
            Ok(())
        }
    };
}
writer!(write8, measureme_10);
writer!(write9, measureme);

type Analysis = (BTreeMap<String, String>, BTreeMap<String, u64>, u128);
fn norm(r: AnalysisResults) -> Result<Analysis, String> {
    let n = r.query_data.len();
    let q: BTreeMap<String, String> = r.query_data.into_iter().map(|q| (q.label.clone(), format!("{q:?}"))).collect();
    ensure_eq!(q.len(), n, "distinct labels in the analysis");
    Ok((q, r.artifact_sizes.into_iter().map(|a| (a.label, a.value)).collect(), r.total_time.as_nanos()))
}

pub struct P;
impl Prop for P {
    type Case = Case;
    const ID: &'static str = "C09";
    const RULE: &'static str = "One generated recording (threads, nesting, all event types, any conforming text, virtual ids) written as v8 and as v9, by an independent encoder or by the released old and the current writer; metadata, every event, analysis and folded stacks are compared. Non-trivial: at least three events of at least two types or with nesting.";
    const ASSUMPTIONS: &'static [&'static str] = &[
        "two defects of the released v8 decoder crate are kept out: a composite whose address equals the offset of its first 0xFF byte minus 5, and the vertical tab in labels",
    ];
    fn cases(t: Tier) -> u32 {
        t.pick(100_000, 4_000_000)
    }
    fn strategy(_t: Tier) -> BoxedStrategy<Case> {
        let texts = prop_oneof![
            8 => crate::text::grammar_text(),
            1 => crate::text::any_text().prop_map(|s| s.replace('\x0B', " ").replace('\x1E', "")).prop_map(|s| if s.is_empty() { "e".into() } else { s })
        ]
        .boxed();
        (
            crate::model::hist(Gen { texts, max_ops: 40, ..Gen::default() }),
            crate::model::meta(),
            crate::model::layout(),
            crate::model::layout(),
            any::<bool>(),
        )
            .prop_map(|(hist, meta, l8, l9, real)| Case { hist, meta, l8, l9, real })
            .boxed()
    }
    fn fixed(_t: Tier) -> Vec<Case> {
        // payload limits; many events
        let m = crate::model::MAX_INTERVAL;
        use crate::model::Op::*;
        let mut v = vec![];
        for real in [false, true] {
            v.push(Case {
                hist: Hist {
                    threads: vec![(u32::MAX, 0), (0, m)],
                    texts: vec!["a".into(), "b".into()],
                    ops: vec![
                        (0, Open { kind: 0, label: 0, args: vec![1, 0] }),
                        (0, Adv(m)),
                        (0, Instant { kind: 5, label: 1, args: vec![] }),
                        (0, Integer { kind: 6, label: 1, args: vec![], value: crate::model::MAX_VALUE }),
                        (0, Close),
                        (1, Open { kind: 0, label: 0, args: vec![1] }),
                        (1, Close),
                    ],
                    strict: false,
                    repeat: 1,
                },
                meta: Meta { start_ns: u64::MAX / 2, pid: u32::MAX, cmd: "x \"y\" \\ \u{1F600}\n".into() },
                l8: Layout { shapes: vec![2, 0x42, 6], ..Layout::default() },
                l9: Layout { shapes: vec![7, 3, 0x66], ..Layout::default() },
                real,
            });
            v.push(Case {
                hist: crate::model::long_hist(18_000),
                meta: Meta { start_ns: 1_700_000_000_000_000_001, pid: 7, cmd: "x".into() },
                l8: Layout { shapes: vec![0, 5, 2, 7], ..Layout::default() },
                l9: Layout { shapes: vec![2, 0x43, 1], ..Layout::default() },
                real,
            });
            for hist in crate::model::big_hists() {
                v.push(Case { hist, meta: Meta { start_ns: 1, pid: 7, cmd: "x".into() }, l8: Layout { shapes: vec![0, 5, 2], ..Layout::default() }, l9: Layout::default(), real });
            }
        }
        v
    }
    fn check(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
        let run = case.hist.run();
        let ev = &run.events;
        let (d8, d9) = if case.real {
            ctx.class("real writers");
            let dir = ctx.dir();
            let (p8, p9) = (dir.0.join("a.mm_profdata"), dir.0.join("b.mm_profdata"));
            write8(&p8, &case.meta, ev, &case.l8)?;
            write9(&p9, &case.meta, ev, &case.l9)?;
            (
                ProfilingData::new(&p8).map_err(|e| format!("v8 file does not load: {e}"))?,
                ProfilingData::new(&p9).map_err(|e| format!("v9 file does not load: {e}"))?,
            )
        } else {
            let l = |v: u32, l: &Layout| {
                ProfilingData::from_paged_buffer(codec::encode_file(&case.meta, ev, l, v), None)
                    .map_err(|e| format!("v{v} data does not load: {e}"))
            };
            (l(8, &case.l8)?, l(9, &case.l9)?)
        };
        for (d, v) in [(&d8, "v8"), (&d9, "v9")] {
            let m = d.metadata();
            ensure_eq!(m.start_time, epoch(case.meta.start_ns), "{v} start time");
            ensure_eq!(m.process_id, case.meta.pid, "{v} process id");
            ensure_eq!(m.cmd, case.meta.cmd, "{v} cmd");
            ensure_eq!(d.num_events(), ev.len(), "{v} number of events");
        }
        let conf = |e: &Ev| crate::text::conforming(&e.label) && e.args.iter().all(|a| crate::text::conforming(a));
        for (i, (a, b)) in d8.iter_full().zip(d9.iter_full()).enumerate() {
            ensure!(a == b, "event {i} differs: v8 {a:?}, v9 {b:?}");
            if conf(&ev[i]) {
                same_event(&a, &ev[i], case.meta.start_ns).map_err(|e| format!("v8 event {i}: {e}"))?;
            }
        }
        for (i, (a, b)) in d8.iter().zip(d9.iter()).enumerate() {
            ensure!(a == b, "lightweight event {i} differs: v8 {a:?}, v9 {b:?}");
        }
        let (s8, s9) = (collapse_stacks(&d8), collapse_stacks(&d9));
        ensure!(s8 == s9, "folded stacks differ: v8 {s8:?}, v9 {s9:?}");
        let (a8, a9) = (norm(d8.perform_analysis())?, norm(d9.perform_analysis())?);
        ensure_eq!(a8, a9, "analysis of v8 against that of v9");
        let types = ev.iter().map(|e| std::mem::discriminant(&e.payload)).collect::<std::collections::HashSet<_>>().len();
        ctx.class_if(types >= 2, "several event types");
        ctx.class_if(run.max_depth() >= 2, "nested");
        ctx.count("events", ev.len() as u64);
        ctx.nontrivial_if(ev.len() >= 3 && (types >= 2 || run.max_depth() >= 2));
        Ok(())
    }
}
