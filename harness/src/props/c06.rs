//! C06: event ids split into label and arguments.
use crate::driver::*;
use crate::text::conforming;
use measureme::{EventId, EventIdBuilder, Profiler, StringComponent, StringId};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Id {
    pub label: String,
    pub args: Vec<String>,
    /// how the id's string is put together
    pub shape: u8,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub ids: Vec<Id>,
}

fn expected(full: &str) -> (String, Vec<String>) {
    let mut seg = full.split('\x1E');
    let label = seg.next().unwrap();
    if !conforming(label) {
        return ("<parse error>".into(), vec![]);
    }
    (label.into(), seg.take_while(|s| conforming(s)).map(|s| s.to_string()).collect())
}

pub struct P;
impl Prop for P {
    type Case = Case;
    const ID: &'static str = "C06";
    const RULE: &'static str = "Event ids from a label and 0-12 (rarely up to 300) arguments over all Unicode text, conforming to the grammar or not (empty texts, control characters, separators inside, DEL, C1 controls, every ASCII blank), put together by the builder's calls, as one plain string, as mixed components or through virtual ids; recorded by a profiler and read from the file. Non-trivial: at least one argument, or a violation of the grammar.";
    fn cases(t: Tier) -> u32 {
        t.pick(80_000, 3_000_000)
    }
    fn strategy(_t: Tier) -> BoxedStrategy<Case> {
        let short = || prop_oneof![3 => crate::text::grammar_text(), 2 => crate::text::any_text()];
        // Something behind or before many ordinary characters.
        let long = || {
            (short(), prop_oneof![6 => 1usize..300, 3 => 300usize..5000, 1 => 60_000usize..70_000], prop_oneof![3 => Just('x'), 1 => Just(' '), 1 => Just('\u{e9}')], any::<bool>()).prop_map(|(t, n, c, front)| {
                let pad: String = std::iter::repeat(c).take(n).collect();
                if front {
                    pad + &t
                } else {
                    t + &pad
                }
            })
        };
        let text = move || prop_oneof![20 => short(), 1 => long()];
        let id = (
            text(),
            prop_oneof![30 => proptest::collection::vec(text(), 0..5).boxed(), 10 => proptest::collection::vec(crate::text::grammar_text(), 0..13).boxed(),
                1 => prop_oneof![3 => 13usize..40, 1 => 40usize..300].prop_flat_map(|n| proptest::collection::vec("[a-z]{1,3}", n..=n)).boxed()],
            any::<u8>(),
        )
            .prop_map(|(label, args, shape)| Id { label, args, shape });
        proptest::collection::vec(id, 1..10).prop_map(|ids| Case { ids }).boxed()
    }
    fn fixed(_t: Tier) -> Vec<Case> {
        // Every ASCII character in every role.
        (0u8..128)
            .map(|b| {
                let c = (b as char).to_string();
                let x = |l: &str, a: &[&str]| Id { label: l.into(), args: a.iter().map(|s| s.to_string()).collect(), shape: b };
                Case {
                    ids: vec![
                        x(&c, &[]),
                        x(&c, &["a"]),
                        x("l", &[&c]),
                        x("l", &[&c, "b"]),
                        x("l", &["a", &c, "b"]),
                        x(&format!("l{c}"), &[&format!("a{c}"), &format!("{c}b")]),
                        x(&format!("{c}l{c}m"), &["a"]),
                        x("", &[&c]),
                    ],
                }
            })
            .chain([7usize, 8, 15, 16, 31, 32, 63, 64, 127, 128, 129, 255, 256, 257, 511, 512, 1023, 1024, 1025, 4095, 4096, 4097, 65534, 65535, 65536, 65537, 131_072, 262_144, 1_000_000].iter().flat_map(|n| {
                let pad = "x".repeat(*n);
                let x = |l: &str, a: &[&str], shape| Id { label: l.into(), args: a.iter().map(|s| s.to_string()).collect(), shape };
                ["\x01", "\x1E", "\x7F", "\x0B", "\u{85}", " ", "\u{e9}"].iter().map(move |c| {
                    let t = format!("{pad}{c}");
                    let u = format!("{pad}{c}y");
                    Case { ids: vec![x(&t, &[], 0), x(&u, &["a"], 3), x("l", &[&t, "b"], 1), x("l", &["a", &u, "b"], 2), x(&pad, &[&pad, c], 4)] }
                })
            }))
            .collect()
    }
    fn check(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
        let dir = ctx.dir();
        let stem = dir.0.join("p");
        let p = Profiler::new(&stem).map_err(|e| format!("profiler: {e}"))?;
        let kind = p.alloc_string("K");
        let mut late: Vec<(StringId, StringId)> = vec![];
        let mut want = vec![];
        for (i, id) in case.ids.iter().enumerate() {
            let b = EventIdBuilder::new(&p);
            let mut full = id.label.clone();
            for a in &id.args {
                full.push('\x1E');
                full.push_str(a);
            }
            let alloc = |s: &str| p.alloc_string(s);
            let via_builder = |l: StringId, args: &[StringId]| match args.len() {
                0 if id.shape & 16 == 0 => b.from_label(l),
                1 if id.shape & 16 == 0 => b.from_label_and_arg(l, args[0]),
                _ => b.from_label_and_args(l, args),
            };
            let ev = match id.shape % 6 {
                0 | 1 => {
                    let l = alloc(&id.label);
                    let args: Vec<StringId> = id.args.iter().map(|a| alloc(a)).collect();
                    via_builder(l, &args)
                }
                2 => {
                    // virtual label and arguments, content comes later
                    let mut n = 0u32;
                    let mut v = |s: &str| {
                        let v = StringId::new_virtual(1000 * i as u32 + n);
                        n += 1;
                        late.push((v, alloc(s)));
                        v
                    };
                    let l = v(&id.label);
                    let args: Vec<StringId> = id.args.iter().map(|a| v(a)).collect();
                    via_builder(l, &args)
                }
                3 => EventId::from_label(alloc(&full)),
                4 => {
                    let v = StringId::new_virtual(1000 * i as u32 + 999);
                    late.push((v, alloc(&full)));
                    EventId::from_virtual(v)
                }
                _ => {
                    // label and separator in one component
                    let args: Vec<StringId> = id.args.iter().map(|a| alloc(a)).collect();
                    let mut cs = vec![StringComponent::Value(&id.label)];
                    for a in &args {
                        cs.push(StringComponent::Value("\x1E"));
                        cs.push(StringComponent::Ref(*a));
                    }
                    EventId::from_label(p.alloc_string(&cs[..]))
                }
            };
            p.record_integer_event(kind, ev, 0, i as u64);
            let e = expected(&full);
            let bad = e.0 != id.label || e.1 != id.args;
            ctx.class_if(bad, "violates the grammar");
            ctx.class_if(e.0 == "<parse error>", "bad label");
            ctx.class_if(id.args.len() > 3, "more than three arguments");
            ctx.nontrivial_if(bad || !id.args.is_empty());
            want.push((full, e));
        }
        for (v, c) in late {
            p.map_virtual_to_concrete_string(v, c);
        }
        drop(p);
        let data = analyzeme::ProfilingData::new(&stem).map_err(|e| format!("profile does not load: {e}"))?;
        let got: Vec<_> = data.iter_full().collect();
        ensure_eq!(got.len(), want.len(), "number of events");
        for (g, (full, (label, args))) in got.iter().zip(&want) {
            ensure!(
                g.label == *label && g.additional_data.iter().map(|a| &a[..]).collect::<Vec<_>>() == args.iter().map(|a| &a[..]).collect::<Vec<_>>(),
                "event id {full:?} is split into {:?} {:?}, expected {label:?} {args:?}",
                g.label, g.additional_data
            );
        }
        Ok(())
    }
}
