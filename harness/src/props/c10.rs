//! C10: damaged files.
use crate::codec::{self, Layout, Meta};
use crate::driver::*;
use crate::load::{full_id, payload};
use crate::model::{Ev, Gen, Hist};
use analyzeme::{EventPayload as Pl, ProfilingData};
use std::panic::AssertUnwindSafe;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Damage {
    /// other first bytes
    Head([u8; 8]),
    Magic([u8; 4]),
    Version(u32),
    Short(u8),
    /// streams to leave out (bit mask)
    Drop(u8),
    StreamMagic(u8, [u8; 4]),
    StreamVersion(u8, u32),
    /// this stream is cut to fewer bytes than its header has
    StreamShort(u8, u8),
    /// every point from `from` in steps
    Trunc { step: u16, from: u16 },
    Missing,
    /// no file, but some of those (bit mask) that profilers before 0.8 wrote
    Legacy(u8),
    /// a page (by number) gets this tag
    Tag(u16, u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub hist: Hist,
    pub meta: Meta,
    pub layout: Layout,
    pub v8: bool,
    pub damage: Damage,
}

const HOLES: [&str; 3] = ["<unknown>", "<invalid>", "<parse error>"];

/// `got` is `want` with some pieces replaced by placeholders.
fn pieces_of(got: &str, want: &str) -> bool {
    let mut rest = got.to_string();
    let mut any = false;
    for h in HOLES {
        if rest.contains(h) {
            any = true;
            rest = rest.replace(h, "\u{0}");
        }
    }
    if !any {
        return got == want;
    }
    let mut at = 0;
    for p in rest.split('\u{0}') {
        match want[at..].find(p) {
            Some(k) => at += k + p.len(),
            None => return false,
        }
    }
    true
}

fn check_prefix(data: &ProfilingData, ev: &[Ev], start: u64, at: usize) -> Result<usize, String> {
    let n = data.num_events();
    ensure!(n <= ev.len(), "cut at {at}: {n} events, only {} were recorded", ev.len());
    // Each way to get at an event may refuse, none may make something up.
    type Full = (String, String, Vec<String>, Pl, u32);
    let one = |f: analyzeme::Event<'_>| -> Full {
        (f.event_kind.into_owned(), f.label.into_owned(), f.additional_data.iter().map(|s| s.to_string()).collect(), f.payload, f.thread_id)
    };
    let is = |i: usize, (kind, label, args, pl, tid): Full| -> Result<(), String> {
        let e = &ev[i];
        ensure!(tid == e.tid && pl == payload(&e.payload, start), "cut at {at}: event {i} is thread {tid}, {pl:?}; recorded was {e:?}");
        ensure!(pieces_of(&kind, &e.kind), "cut at {at}: kind of event {i} is {kind:?}, recorded was {:?}", e.kind);
        let mut got = label;
        for a in args {
            got.push('\x1E');
            got.push_str(&a);
        }
        ensure!(pieces_of(&got, &full_id(e)), "cut at {at}: id of event {i} is {got:?}, recorded was {:?}", full_id(e));
        Ok(())
    };
    let mut light = data.iter();
    for i in 0..n {
        let Ok(l) = catch(AssertUnwindSafe(|| light.next())) else { break };
        let Some(l) = l else { break };
        let e = &ev[i];
        ensure!(l.thread_id == e.tid && l.payload == payload(&e.payload, start), "cut at {at}: event {i} is {l:?}; recorded was {e:?}");
        if let Ok(f) = catch(|| one(data.to_full_event(&l))) {
            is(i, f)?;
        }
    }
    let mut full = data.iter_full();
    for i in 0..n {
        match catch(AssertUnwindSafe(|| full.next().map(one))) {
            Ok(Some(f)) => is(i, f)?,
            Ok(None) | Err(_) => break,
        }
    }
    let mut full = data.iter_full();
    for i in (0..n).rev() {
        match catch(AssertUnwindSafe(|| full.next_back().map(one))) {
            Ok(Some(f)) => is(i, f)?,
            Ok(None) | Err(_) => break,
        }
    }
    Ok(n)
}

const NO_STREAM: [&str; 3] = [
    "Invalid file: No string data found at",
    "Invalid file: No string index data found at",
    "Invalid file: No event data found at",
];

pub struct P;
impl Prop for P {
    type Case = Case;
    const ID: &'static str = "C10";
    const LEVEL: &'static str = "fault_enumeration";
    const RULE: &'static str = "Valid v8/v9 files with one kind of damage: other magic, version or header bytes, fewer than 8 bytes, a missing stream, a stream with a foreign or short header, no file, or only files of the format before (must be errors, without panic), or truncation at every byte position of the file (up to 4000 positions, else in steps; each must be refused or give a prefix with only recorded or placeholder text). Non-trivial: the undamaged file has at least one event.";
    fn cases(t: Tier) -> u32 {
        t.pick(70_000, 2_000_000)
    }
    fn strategy(_t: Tier) -> BoxedStrategy<Case> {
        let magic = || prop_oneof![
            3 => proptest::sample::select(vec![*b"MMPD", *b"MMES", *b"MMSD", *b"MMSI"]),
            2 => any::<[u8; 4]>(),
            3 => (proptest::sample::select(vec![*b"MMPD", *b"MMES", *b"MMSD", *b"MMSI"]), 0usize..4, 0u8..8).prop_map(|(mut m, i, b)| { m[i] ^= 1 << b; m }),
        ];
        let version = || prop_oneof![4 => 0u32..16, 2 => any::<u32>(), 2 => (0u32..32).prop_map(|s| 9 ^ (1 << s)), 1 => Just(9u32 << 8), 1 => Just(9u32 << 24), 1 => Just(u32::MAX)];
        let damage = prop_oneof![
            2 => (magic(), version()).prop_map(|(m, v)| { let mut h = [0; 8]; h[..4].copy_from_slice(&m); h[4..].copy_from_slice(&v.to_le_bytes()); Damage::Head(h) }),
            2 => magic().prop_map(Damage::Magic),
            3 => version().prop_map(Damage::Version),
            1 => (0u8..8).prop_map(Damage::Short),
            2 => (1u8..8).prop_map(Damage::Drop),
            2 => (0u8..3, magic()).prop_map(|(s, m)| Damage::StreamMagic(s, m)),
            3 => (0u8..3, version()).prop_map(|(s, v)| Damage::StreamVersion(s, v)),
            1 => (0u8..3, 1u8..8).prop_map(|(s, n)| Damage::StreamShort(s, n)),
            4 => (1u16..4, 0u16..4).prop_map(|(step, from)| Damage::Trunc { step, from }),
            1 => Just(Damage::Missing),
            2 => (any::<u16>(), any::<u8>()).prop_map(|(p, t)| Damage::Tag(p, t)),
            1 => (0u8..8).prop_map(Damage::Legacy),
        ];
        let texts = prop_oneof![6 => crate::text::grammar_text().boxed(), 1 => Just("x\u{e9}\u{4e2d}".to_string()).boxed()]
            .prop_map(|s: String| if s.len() > 60 { "long".into() } else { s })
            .boxed();
        (
            crate::model::hist(Gen { texts, max_ops: 14, max_texts: 4, max_args: 2, ..Gen::default() }),
            crate::model::meta(),
            crate::model::layout(),
            any::<bool>(),
            damage,
            prop_oneof![2 => Just(0u16), 1 => 1u16..40],
            any::<bool>(),
        )
            .prop_map(|(hist, meta, mut layout, v8, damage, torn, events)| {
                // small pages, so that truncation hits many structures
                for c in &mut layout.cuts {
                    c.1 = 1 + c.1 % 97;
                }
                if torn > 0 {
                    // index and events (or strings) stored first, the strings (or events) last in tiny pages
                    let (first, last) = if events { (1, 0) } else { (0, 1) };
                    layout.cuts.insert(0, (first, u16::MAX.into()));
                    layout.cuts.insert(0, (2, u16::MAX.into()));
                    layout.cuts.extend((0..2000 / torn).map(|k| (last, (torn + k % 3).into())));
                }
                Case { hist, meta, layout, v8, damage }
            })
            .boxed()
    }
    fn fixed(_t: Tier) -> Vec<Case> {
        (1..8)
            .map(|mask| Case {
                hist: Hist { threads: vec![(1, 0)], texts: vec!["A".into()], ops: vec![], strict: false, repeat: 1 },
                meta: Meta { start_ns: 0, pid: 1, cmd: "a".into() },
                layout: Layout::default(),
                v8: true,
                damage: Damage::Drop(mask),
            })
            .collect()
    }
    fn check(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
        let run = case.hist.run();
        let ev = &run.events;
        let version = if case.v8 { 8 } else { 9 };
        let mut streams = codec::encode_streams(&case.meta, ev, &case.layout, version);
        let good = codec::file_bytes(&codec::paginate(&streams, &case.layout), version);
        ctx.nontrivial_if(!ev.is_empty());
        {
            let d = ProfilingData::from_paged_buffer(good.clone(), None).map_err(|e| format!("the undamaged file is refused: {e}"))?;
            let n = check_prefix(&d, ev, case.meta.start_ns, good.len())?;
            ensure_eq!(n, ev.len(), "events of the undamaged file");
        }
        let must_fail = |bytes: Vec<u8>, ctx: &mut Ctx, what: &str| -> Result<(), String> {
            let dir = ctx.dir();
            let f = dir.0.join("d.mm_profdata");
            std::fs::write(&f, &bytes).expect("harness: write");
            for (r, via) in [
                (catch(|| ProfilingData::from_paged_buffer(bytes, Some(&f)).map(|d| d.num_events())), "buffer"),
                (catch(|| ProfilingData::new(&f).map(|d| d.num_events())), "file"),
            ] {
                match r {
                    Err(m) => return Err(format!("{what} ({via}): panics instead of reporting an error: {m}")),
                    Ok(Ok(n)) => return Err(format!("{what} ({via}): loaded, with {n} events")),
                    Ok(Err(_)) => {}
                }
            }
            Ok(())
        };
        match &case.damage {
            Damage::Head(_) | Damage::Magic(_) | Damage::Version(_) => {
                let mut b = good.clone();
                match &case.damage {
                    Damage::Head(h) => b[..8].copy_from_slice(h),
                    Damage::Magic(m) => b[..4].copy_from_slice(m),
                    Damage::Version(v) => b[4..8].copy_from_slice(&v.to_le_bytes()),
                    _ => unreachable!(),
                }
                if b == good {
                    ctx.class("damage without effect");
                    return Ok(());
                }
                ctx.class("header damaged");
                let h = format!("header {:?} on a v{version} file", &b[..8]);
                let v = u32::from_le_bytes(b[4..8].try_into().unwrap());
                let right = b[..4] == good[..4];
                must_fail(b.clone(), ctx, &h)?;
                if right {
                    // The version is what is wrong, and the error says so.
                    let msg = match ProfilingData::from_paged_buffer(b, None) {
                        Err(e) => e.to_string().to_lowercase(),
                        Ok(_) => return Err(format!("{h}: loaded")),
                    };
                    ensure!(msg.contains(&v.to_string()), "{h}: refused as {msg:?}, without the version");
                    let wrong = if v < 8 { "too new" } else { "too old" };
                    ensure!(!msg.contains(wrong), "{h}: version {v} is called {wrong}: {msg:?}");
                    ctx.class("other version");
                }
                Ok(())
            }
            Damage::Short(n) => {
                ctx.class("too short");
                must_fail(good[..*n as usize].to_vec(), ctx, &format!("only {n} bytes"))
            }
            Damage::Drop(mask) => {
                ctx.class("stream missing");
                if mask & 1 != 0 {
                    streams.events.clear();
                }
                if mask & 2 != 0 {
                    streams.data.clear();
                }
                if mask & 4 != 0 {
                    streams.index.clear();
                }
                let b = codec::file_bytes(&codec::paginate(&streams, &case.layout), version);
                match must_fail(b, ctx, &format!("streams {mask:#b} missing")) {
                    // decodeme 10.1.3, which reads version 8, uses expect()
                    Err(m) if version == 8 && NO_STREAM.iter().any(|n| m.contains(&format!("panics instead of reporting an error: {n} "))) => {
                        ctx.known(Self::ID, "v8-missing-stream-panics", m)
                    }
                    r => r,
                }
            }
            Damage::StreamMagic(..) | Damage::StreamVersion(..) | Damage::StreamShort(..) => {
                let s = match &case.damage {
                    Damage::StreamMagic(s, _) | Damage::StreamVersion(s, _) | Damage::StreamShort(s, _) => *s,
                    _ => unreachable!(),
                };
                let st = [&mut streams.events, &mut streams.data, &mut streams.index];
                let st = st.into_iter().nth(s as usize % 3).unwrap();
                let before = st.clone();
                match &case.damage {
                    Damage::StreamMagic(_, m) => st[..4].copy_from_slice(m),
                    Damage::StreamVersion(_, v) => st[4..8].copy_from_slice(&v.to_le_bytes()),
                    Damage::StreamShort(_, n) => st.truncate(*n as usize),
                    _ => unreachable!(),
                }
                if *st == before {
                    ctx.class("damage without effect");
                    return Ok(());
                }
                ctx.class("stream header damaged");
                let b = codec::file_bytes(&codec::paginate(&streams, &case.layout), version);
                must_fail(b, ctx, &format!("{:?}", case.damage))
            }
            Damage::Trunc { step, from } => {
                ctx.class("truncated");
                let mut step = *step as usize;
                if good.len() / step > 4000 {
                    step = good.len() / 4000;
                }
                let (mut refused, mut partial) = (0, 0);
                for at in (*from as usize..good.len()).step_by(step) {
                    let b = good[..at].to_vec();
                    let r = catch(|| ProfilingData::from_paged_buffer(b, None).map(|d| {
                        // a torn event stream may be noticed only when counting
                        let _ = d.num_events();
                        d
                    }));
                    match r {
                        Ok(Ok(d)) => {
                            check_prefix(&d, ev, case.meta.start_ns, at)?;
                            partial += 1;
                        }
                        Ok(Err(_)) | Err(_) => {
                            if at < 8 {
                                ensure!(r.is_ok(), "cut to {at} bytes: panics instead of reporting an error");
                            }
                            refused += 1
                        }
                    }
                }
                ctx.count("truncation points refused", refused);
                ctx.count("truncation points loaded as prefix", partial);
                Ok(())
            }
            Damage::Tag(p, tag) => {
                // tag, size (4 bytes), content; the file header comes first
                let mut tags = vec![];
                let mut at = 8;
                while at < good.len() {
                    tags.push(at);
                    at += 5 + u32::from_le_bytes(good[at + 1..at + 5].try_into().unwrap()) as usize;
                }
                ensure_eq!(at, good.len(), "harness: pages");
                let at = tags[*p as usize % tags.len()];
                if *tag < 3 {
                    return Ok(());
                }
                ctx.class("unknown page");
                let mut b = good.clone();
                b[at] = *tag;
                match catch(|| ProfilingData::from_paged_buffer(b, None).map(|d| d.num_events())) {
                    Ok(Ok(n)) => Err(format!("a file with a page of kind {tag} (at {at}) loads, with {n} events")),
                    Ok(Err(_)) | Err(_) => Ok(()),
                }
            }
            Damage::Legacy(mask) => {
                ctx.class("files of old profilers");
                let dir = ctx.dir();
                let st = [&streams.events, &streams.data, &streams.index];
                for (k, ext) in ["events", "string_data", "string_index"].iter().enumerate() {
                    if mask & 1 << k != 0 {
                        std::fs::write(dir.0.join(format!("old.{ext}")), st[k]).expect("harness: write");
                    }
                }
                for name in ["old", "old.mm_profdata"] {
                    let msg = match catch(|| ProfilingData::new(&dir.0.join(name)).map(|d| d.num_events())) {
                        Ok(Err(e)) => e.to_string(),
                        Ok(Ok(n)) => return Err(format!("{name}: only old files {mask:#b}, but it loads with {n} events")),
                        Err(m) => return Err(format!("{name}: only old files {mask:#b}, and it panics: {m}")),
                    };
                    // Without such files, nothing is known of a version.
                    let told = msg.contains("0.7");
                    ensure!(told == (*mask != 0), "{name}: with old files {mask:#b} the error is {msg:?}");
                }
                Ok(())
            }
            Damage::Missing => {
                ctx.class("no file");
                let dir = ctx.dir();
                let f = dir.0.join("nothing");
                match catch(|| ProfilingData::new(&f).map(|d| d.num_events())) {
                    Ok(Err(_)) => Ok(()),
                    Ok(Ok(n)) => Err(format!("a missing file loads with {n} events")),
                    Err(m) => Err(format!("a missing file panics: {m}")),
                }
            }
        }
    }
}
