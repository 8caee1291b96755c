//! C12: folded stacks.
use super::c11::{gen, remerge, Case};
use crate::driver::*;
use crate::load::load;
use crate::model::Run;
use proptest::prelude::*;
use std::collections::BTreeMap;

pub fn nonzero(m: impl IntoIterator<Item = (String, u64)>) -> BTreeMap<String, u64> {
    m.into_iter().filter(|(_, v)| *v > 0).collect()
}

fn compare(got: BTreeMap<String, u64>, run: &Run, what: &str) -> Result<(), String> {
    let all: u64 = got.values().sum();
    ensure_eq!(all, run.total_time(), "{what}: sum of all entries against the thread spans");
    // Entries without time carry no information (a zero-length event on a boundary has two
    // possible parents).
    ensure_eq!(nonzero(got), run.stacks(), "{what}");
    Ok(())
}

pub struct P;
impl Prop for P {
    type Case = Case;
    const ID: &'static str = "C12";
    const RULE: &'static str = "The histories of C11, folded; entries with time are compared with the stacks of the generated tree, and the sum of all entries with the thread spans. Non-trivial: nesting of depth 2 or more with time at two different depths.";
    const ASSUMPTIONS: &'static [&'static str] = &[
        "intervals of one thread are well nested and in order of their ends",
        "stacks without any time may be listed with 0 or left out",
    ];
    fn cases(t: Tier) -> u32 {
        t.pick(160_000, 8_000_000)
    }
    fn strategy(t: Tier) -> BoxedStrategy<Case> {
        (
            crate::model::hist(gen(t)),
            crate::model::meta(),
            crate::model::layout(),
            any::<u8>(),
            proptest::collection::vec(any::<u8>(), 0..6),
        )
            .prop_map(|(hist, meta, layout, via, merge)| Case { hist, meta, layout, via, merge })
            .boxed()
    }
    fn fixed(t: Tier) -> Vec<Case> {
        super::c11::P::fixed(t)
    }
    fn check(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
        let run = case.hist.run();
        let d = load(&case.meta, &run.events, &case.layout, case.via)?;
        compare(analyzeme::collapse_stacks(&d).into_iter().collect(), &run, "folded stacks")?;
        let other = remerge(&run.events, &case.merge);
        if other != run.events {
            ctx.class("merged in another order");
            let d = load(&case.meta, &other, &case.layout, 0)?;
            compare(analyzeme::collapse_stacks(&d).into_iter().collect(), &run, "folded stacks with the threads merged differently")?;
        }
        let want = run.stacks();
        let depths: std::collections::HashSet<usize> = run.nodes.iter().filter(|n| n.end - n.start > n.children).map(|n| n.path.len()).collect();
        ctx.class_if(run.max_depth() >= 2, "nested");
        ctx.class_if(run.spans().len() >= 2, "several threads");
        ctx.class_if(want.contains_key("rustc"), "gaps");
        ctx.count("stacks", want.len() as u64);
        ctx.nontrivial_if(run.max_depth() >= 2 && depths.len() >= 2);
        Ok(())
    }
}
