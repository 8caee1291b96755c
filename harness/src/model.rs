//! The reference model: a history of operations on several threads, interpreted by a stack
//! machine, from which the interval tree is known by construction.
use crate::codec::{Layout, Meta};
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

pub const MAX_INTERVAL: u64 = 0xFFFF_FFFF_FFFD;
pub const MAX_VALUE: u64 = 0xFFFF_FFFF_FFFF;

pub const KINDS: &[&str] = &[
    "Query",
    "GenericActivity",
    "IncrementalResultHashing",
    "IncrementalLoadResult",
    "QueryBlocked",
    "QueryCacheHit",
    "ArtifactSize",
    "SomethingElse",
    "query",
    "\u{3ba}ind with blanks",
    // nearly known ones
    "querycachehit",
    "ArtifactSizes",
    "QueryProvider",
    "Query ",
    "IncrementalLoadResultHashing",
    "QUERYBLOCKED",
    "GenericActivit",
    "artifactSize",
];

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Payload {
    Interval(u64, u64),
    Instant(u64),
    Integer(u64),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Ev {
    pub kind: String,
    pub label: String,
    pub args: Vec<String>,
    pub tid: u32,
    pub payload: Payload,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    Open { kind: u8, label: u8, args: Vec<u8> },
    Close,
    Adv(u64),
    Instant { kind: u8, label: u8, args: Vec<u8> },
    Integer { kind: u8, label: u8, args: Vec<u8>, value: u64 },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Hist {
    /// thread id and time of its first operation
    pub threads: Vec<(u32, u64)>,
    pub texts: Vec<String>,
    /// (thread, operation) in file order
    pub ops: Vec<(u8, Op)>,
    /// Every operation takes at least 1 ns, so that no two boundaries of a thread coincide.
    #[serde(default)]
    pub strict: bool,
    /// How often the operations run (0: once). In later rounds, threads and texts move on by one;
    /// at the end of each round all open intervals are closed.
    #[serde(default)]
    pub repeat: u32,
}

#[derive(Clone, Debug)]
pub struct Node {
    pub event: usize,
    pub thread: usize,
    pub parent: Option<usize>,
    pub start: u64,
    pub end: u64,
    /// duration of the direct children
    pub children: u64,
    /// labels from the root to this node
    pub path: Vec<String>,
}

pub struct Run {
    pub events: Vec<Ev>,
    /// in order of opening
    pub nodes: Vec<Node>,
}

impl Hist {
    fn text(&self, i: u8, round: usize) -> &str {
        &self.texts[(i as usize + round) % self.texts.len()]
    }

    pub fn run(&self) -> Run {
        let n = self.threads.len();
        let mut clock: Vec<u64> = self.threads.iter().map(|t| t.1.min(MAX_INTERVAL)).collect();
        let mut stacks: Vec<Vec<usize>> = vec![vec![]; n];
        let mut events: Vec<Ev> = vec![];
        let mut nodes: Vec<Node> = vec![];
        let mut info: Vec<(String, String, Vec<String>)> = vec![];
        let args = |a: &[u8], r: usize| -> Vec<String> { a.iter().map(|i| self.text(*i, r).to_string()).collect() };
        let close = |t: usize,
                         stacks: &mut Vec<Vec<usize>>,
                         nodes: &mut Vec<Node>,
                         events: &mut Vec<Ev>,
                         info: &[(String, String, Vec<String>)],
                         now: u64| {
            let Some(i) = stacks[t].pop() else { return };
            nodes[i].end = now;
            nodes[i].event = events.len();
            let d = now - nodes[i].start;
            if let Some(p) = nodes[i].parent {
                nodes[p].children += d;
            }
            let (kind, label, a) = info[i].clone();
            events.push(Ev {
                kind,
                label,
                args: a,
                tid: self.threads[t].0,
                payload: Payload::Interval(nodes[i].start, now),
            });
        };
        let rounds = self.repeat.max(1) as usize;
        for (k, (t, op)) in (0..rounds).flat_map(|_| self.ops.iter()).enumerate() {
            let r = k / self.ops.len();
            let t = (*t as usize + r) % n;
            if self.strict && !matches!(op, Op::Adv(_)) {
                clock[t] = (clock[t] + 1).min(MAX_INTERVAL);
            }
            match op {
                Op::Adv(d) => clock[t] = clock[t].saturating_add(*d).min(MAX_INTERVAL),
                Op::Open { kind, label, args: a } => {
                    let parent = stacks[t].last().copied();
                    let mut path = parent.map(|p| nodes[p].path.clone()).unwrap_or_default();
                    path.push(self.text(*label, r).to_string());
                    stacks[t].push(nodes.len());
                    nodes.push(Node { event: usize::MAX, thread: t, parent, start: clock[t], end: 0, children: 0, path });
                    info.push((
                        KINDS[*kind as usize % KINDS.len()].to_string(),
                        self.text(*label, r).to_string(),
                        args(a, r),
                    ));
                }
                Op::Close => close(t, &mut stacks, &mut nodes, &mut events, &info, clock[t]),
                Op::Instant { kind, label, args: a } => events.push(Ev {
                    kind: KINDS[*kind as usize % KINDS.len()].to_string(),
                    label: self.text(*label, r).to_string(),
                    args: args(a, r),
                    tid: self.threads[t].0,
                    payload: Payload::Instant(clock[t]),
                }),
                Op::Integer { kind, label, args: a, value } => events.push(Ev {
                    kind: KINDS[*kind as usize % KINDS.len()].to_string(),
                    label: self.text(*label, r).to_string(),
                    args: args(a, r),
                    tid: self.threads[t].0,
                    payload: Payload::Integer(*value & MAX_VALUE),
                }),
            }
            if (k + 1) % self.ops.len() == 0 {
                for t in 0..n {
                    while !stacks[t].is_empty() {
                        if self.strict {
                            clock[t] = (clock[t] + 1).min(MAX_INTERVAL);
                        }
                        close(t, &mut stacks, &mut nodes, &mut events, &info, clock[t]);
                    }
                }
            }
        }
        Run { events, nodes }
    }
}

impl Run {
    pub fn kind(&self, n: &Node) -> &str {
        &self.events[n.event].kind
    }
    pub fn label(&self, n: &Node) -> &str {
        &self.events[n.event].label
    }
    pub fn max_depth(&self) -> usize {
        self.nodes.iter().map(|n| n.path.len()).max().unwrap_or(0)
    }

    /// first start and last end of the intervals of each thread
    pub fn spans(&self) -> BTreeMap<usize, (u64, u64)> {
        let mut m: BTreeMap<usize, (u64, u64)> = BTreeMap::new();
        for n in &self.nodes {
            let e = m.entry(n.thread).or_insert((n.start, n.end));
            e.0 = e.0.min(n.start);
            e.1 = e.1.max(n.end);
        }
        m
    }

    pub fn total_time(&self) -> u64 {
        self.spans().values().map(|(a, b)| b - a).sum()
    }

    /// Expected analysis, per label.
    pub fn analysis(&self) -> BTreeMap<String, QueryModel> {
        let mut m: BTreeMap<String, QueryModel> = BTreeMap::new();
        for n in &self.nodes {
            let d = n.end - n.start;
            let own = d - n.children;
            let q = m.entry(self.label(n).to_string()).or_default();
            q.self_time += own;
            match self.kind(n) {
                "Query" | "GenericActivity" => {
                    q.time += d;
                    q.misses += 1;
                    q.invocations += 1;
                }
                "QueryBlocked" => {
                    q.time += d;
                    q.blocked += d;
                    q.invocations += 1;
                }
                "IncrementalLoadResult" => {
                    q.time += d;
                    q.load += own;
                }
                "IncrementalResultHashing" => q.hashing += own,
                _ => {
                    q.time += d;
                    q.invocations += 1;
                }
            }
        }
        for e in &self.events {
            if matches!(e.payload, Payload::Instant(_)) && e.kind == "QueryCacheHit" {
                let q = m.entry(e.label.clone()).or_default();
                q.hits += 1;
                q.invocations += 1;
            }
        }
        m
    }

    pub fn artifacts(&self) -> BTreeMap<String, u64> {
        let mut m = BTreeMap::new();
        for e in &self.events {
            if let (Payload::Integer(v), "ArtifactSize") = (&e.payload, &e.kind[..]) {
                *m.entry(e.label.clone()).or_default() += v;
            }
        }
        m
    }

    /// Expected folded stacks (only entries with time).
    pub fn stacks(&self) -> BTreeMap<String, u64> {
        let mut m: BTreeMap<String, u64> = BTreeMap::new();
        let mut top = 0;
        for n in &self.nodes {
            let own = n.end - n.start - n.children;
            if own > 0 {
                *m.entry(format!("rustc;{}", n.path.join(";"))).or_default() += own;
            }
            if n.parent.is_none() {
                top += n.end - n.start;
            }
        }
        let gap = self.total_time() - top;
        if gap > 0 {
            *m.entry("rustc".into()).or_default() += gap;
        }
        m
    }
}

#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct QueryModel {
    pub self_time: u64,
    pub time: u64,
    pub misses: usize,
    pub hits: usize,
    pub invocations: usize,
    pub blocked: u64,
    pub load: u64,
    pub hashing: u64,
}

/// Knobs of the history generator.
#[derive(Clone)]
pub struct Gen {
    pub texts: BoxedStrategy<String>,
    pub max_texts: usize,
    pub max_threads: usize,
    pub max_ops: usize,
    pub max_args: usize,
    /// every operation is preceded by at least 1 ns
    pub strict: bool,
    /// largest single step of a clock
    pub big_steps: bool,
    pub integers: bool,
    pub instants: bool,
    /// now and then long histories, many threads, very long texts, many arguments
    pub large: bool,
}

impl Default for Gen {
    fn default() -> Self {
        Gen {
            texts: crate::text::grammar_text(),
            max_texts: 6,
            max_threads: 4,
            max_ops: 40,
            max_args: 3,
            strict: false,
            big_steps: true,
            integers: true,
            instants: true,
            large: true,
        }
    }
}

pub fn step(big: bool) -> BoxedStrategy<u64> {
    let small = prop_oneof![
        3 => 1u64..20,
        2 => proptest::sample::select(&[999u64, 1000, 1001, 1999, 2000, 500, 1_000_000, 999_999][..]),
        2 => 1u64..5_000_000,
    ];
    if big {
        prop_oneof![
            2 => Just(0u64),
            6 => small,
            1 => prop_oneof![
                1u64..10_000_000_000,
                Just(1u64 << 32),
                Just((1u64 << 32) - 1),
                Just(3_600_000_000_000u64),
                Just(20_000_000_000_000u64)],
        ]
        .boxed()
    } else {
        prop_oneof![2 => Just(0u64), 8 => small].boxed()
    }
}

pub fn tid() -> BoxedStrategy<u32> {
    prop_oneof![
        4 => 0u32..8,
        1 => any::<u32>(),
        1 => proptest::sample::select(&[u32::MAX, u32::MAX - 1, 0x8000_0000, 0x7FFF_FFFF, 0xFFFF, 0x1_0000, 0xFF, 0x100][..]),
    ]
    .boxed()
}

pub fn integer_value() -> BoxedStrategy<u64> {
    prop_oneof![
        4 => 0u64..100_000,
        1 => proptest::sample::select(&[0u64, 1, MAX_VALUE, MAX_VALUE - 1, MAX_VALUE - 2, 1 << 32, (1 << 32) - 1, 1 << 47][..]),
        1 => 0u64..=MAX_VALUE,
    ]
    .boxed()
}

fn op(g: &Gen) -> BoxedStrategy<Op> {
    // Known kinds are frequent; labels repeat.
    let kind = prop_oneof![6 => 0u8..5, 3 => 0u8..KINDS.len() as u8];
    let ev = || {
        let mut args = vec![
            (300, Just(vec![]).boxed()),
            (200, proptest::collection::vec(any::<u8>(), 0..=g.max_args).boxed()),
        ];
        if g.large && g.max_args > 0 {
            args.push((8, proptest::collection::vec(any::<u8>(), 4..=40).boxed()));
            args.push((1, proptest::collection::vec(any::<u8>(), 40..=300).boxed()));
        }
        let args = proptest::strategy::Union::new_weighted(args);
        (kind.clone(), any::<u8>(), args)
    };
    let hit = prop_oneof![2 => Just(5u8), 1 => 0u8..KINDS.len() as u8];
    let art = prop_oneof![2 => Just(6u8), 1 => 0u8..KINDS.len() as u8];
    let mut alts: Vec<(u32, BoxedStrategy<Op>)> = vec![
        (6, ev().prop_map(|(kind, label, args)| Op::Open { kind, label, args }).boxed()),
        (5, Just(Op::Close).boxed()),
        (6, step(g.big_steps).prop_map(Op::Adv).boxed()),
    ];
    if g.instants {
        alts.push((2, (hit, ev()).prop_map(|(kind, (_, label, args))| Op::Instant { kind, label, args }).boxed()));
    }
    if g.integers {
        alts.push((
            1,
            (art, ev(), integer_value())
                .prop_map(|(kind, (_, label, args), value)| Op::Integer { kind, label, args, value })
                .boxed(),
        ));
    }
    proptest::strategy::Union::new_weighted(alts).boxed()
}

pub fn hist(g: Gen) -> BoxedStrategy<Hist> {
    let strict = g.strict;
    let offset = if g.big_steps {
        prop_oneof![3 => Just(0u64), 3 => 0u64..2000, 1 => 0u64..1u64 << 46].boxed()
    } else {
        prop_oneof![3 => Just(0u64), 3 => 0u64..2000].boxed()
    };
    let ops = proptest::collection::vec((any::<u8>(), op(&g)), 0..=g.max_ops);
    // Now and then a deep or a wide history.
    let deep = (prop_oneof![8 => 1usize..60, 1 => 60usize..400], proptest::collection::vec((any::<u8>(), op(&g)), 0..10)).prop_map(|(d, mut tail)| {
        let mut v: Vec<(u8, Op)> = vec![];
        for i in 0..d {
            v.push((0, Op::Open { kind: (i % 3) as u8, label: i as u8, args: vec![] }));
            v.push((0, Op::Adv(1 + (i as u64 % 3))));
        }
        v.append(&mut tail);
        for _ in 0..d / 2 {
            v.push((0, Op::Close));
            v.push((0, Op::Adv(2)));
        }
        v
    });
    let (many, rounds) = if g.large {
        (
            prop_oneof![1 => 5usize..20, 1 => 20usize..=120].boxed(),
            prop_oneof![60 => Just(1u32), 1 => 2u32..10, 1 => 20u32..=60].boxed(),
        )
    } else {
        (Just(1usize).boxed(), Just(1u32).boxed())
    };
    let of = offset.clone();
    let many = many.prop_flat_map(move |n| {
        (any::<u32>(), 1u32..4, proptest::collection::vec(of.clone(), n..=n))
            .prop_map(|(t0, d, v)| v.into_iter().enumerate().map(|(i, o)| (t0.wrapping_add(i as u32 * d), o)).collect::<Vec<_>>())
    });
    let few = proptest::collection::vec((tid(), offset), 1..=g.max_threads);
    let threads = if g.large { prop_oneof![60 => few, 1 => many].boxed() } else { few.boxed() };
    (
        threads,
        proptest::collection::vec(g.texts.clone(), 1..=g.max_texts),
        prop_oneof![12 => ops.boxed(), 1 => deep.boxed()],
        rounds,
        proptest::option::weighted(0.15, (any::<u8>(), 0u8..3)),
    )
        .prop_map(move |(mut threads, mut texts, ops, repeat, sibling)| {
            if let Some((i, how)) = sibling {
                // texts that differ little
                let t = &texts[i as usize % texts.len()];
                texts.push(match how {
                    0 => t.to_ascii_uppercase(),
                    1 => format!("{t}x"),
                    _ => format!("x{t}"),
                });
            }
            let repeat = if threads.len() > 10 && ops.len() <= 60 { repeat.max(threads.len() as u32 / 2) } else { repeat };
            let mut seen = vec![];
            threads.retain(|t| {
                let new = !seen.contains(&t.0);
                seen.push(t.0);
                new
            });
            let mut seen = vec![];
            texts.retain(|t| {
                let new = !seen.contains(t);
                seen.push(t.clone());
                new
            });
            Hist { threads, texts, ops, strict, repeat }
        })
        .boxed()
}

pub fn layout() -> BoxedStrategy<Layout> {
    let size = prop_oneof![4 => 1u32..64, 3 => 1u32..2000, 1 => Just(32u32), 1 => Just(8u32), 1 => 1u32..100_000];
    (
        proptest::collection::vec(any::<u8>(), 0..6),
        prop_oneof![1 => Just(vec![]).boxed(), 3 => proptest::collection::vec((0u8..3, size), 0..8).boxed()],
        0u8..3,
        prop_oneof![2 => Just(0u32), 1 => 0u32..=100_000_000, 1 => Just(99_999_990u32), 1 => 250u32..260, 1 => 65_270u32..65_290],
    )
        .prop_map(|(shapes, cuts, tail, virt0)| Layout { shapes, cuts, tail, virt0 })
        .boxed()
}

pub fn meta() -> BoxedStrategy<Meta> {
    (
        prop_oneof![1 => Just(0u64), 3 => 0u64..2_000_000_000_000_000_000, 1 => 1_600_000_000_000_000_000u64..1_900_000_000_000_000_000],
        any::<u32>(),
        prop_oneof![
            2 => Just("test cmd ".to_string()),
            2 => "[a-z/]{1,8} (--crate-name [a-z_]{1,6} )?[a-z ]{0,6}",
            1 => crate::text::any_text()],
    )
        .prop_map(|(start_ns, pid, cmd)| Meta { start_ns, pid, cmd })
        .boxed()
}

/// A history of `rounds` rounds of four events on three threads.
pub fn long_hist(rounds: u32) -> Hist {
    let e = |label| Op::Open { kind: label % 2, label, args: vec![] };
    Hist {
        threads: vec![(1, 0), (2, 5), (70_000, 1000)],
        texts: (0..7).map(|i| format!("item{i}")).collect(),
        ops: vec![
            (0, e(0)),
            (0, Op::Adv(1500)),
            (0, e(1)),
            (0, Op::Adv(700)),
            (0, Op::Close),
            (0, Op::Instant { kind: 5, label: 2, args: vec![1] }),
            (1, Op::Integer { kind: 6, label: 3, args: vec![], value: 11 }),
            (0, Op::Adv(1001)),
            (0, Op::Close),
            (0, Op::Adv(900)),
        ],
        strict: false,
        repeat: rounds,
    }
}

/// One thread with `depth` nested intervals, labels in turn.
pub fn deep_hist(depth: usize) -> Hist {
    let mut ops = vec![];
    for k in 0..depth {
        ops.push((0, Op::Open { kind: (k % 3 == 2) as u8, label: (k % 251) as u8, args: vec![] }));
        ops.push((0, Op::Adv(2000 + k as u64)));
        if k % 50 == 49 {
            ops.push((0, Op::Instant { kind: 5, label: 3, args: vec![] }));
        }
        if k % 7 == 2 {
            ops.push((0, Op::Open { kind: 0, label: (k % 13) as u8, args: vec![] }));
            ops.push((0, Op::Adv(31)));
            ops.push((0, Op::Close));
        }
    }
    for k in 0..depth {
        ops.push((0, Op::Close));
        if k % 11 == 5 {
            ops.push((0, Op::Open { kind: 1, label: (k % 17) as u8, args: vec![] }));
            ops.push((0, Op::Adv(47)));
            ops.push((0, Op::Close));
        }
        if k % 5 == 0 {
            ops.push((0, Op::Adv(700)));
        }
    }
    Hist { threads: vec![(3, 50)], texts: (0..251).map(|i| format!("level{i}")).collect(), ops, strict: false, repeat: 1 }
}

/// Many labels on many threads.
pub fn wide_hist(labels: usize, threads: u32) -> Hist {
    let e = |label| Op::Open { kind: label % 2, label, args: vec![] };
    Hist {
        threads: (0..threads).map(|t| (t * 3 + 1, 10 * t as u64)).collect(),
        texts: (0..labels).map(|i| format!("label{i}")).collect(),
        ops: vec![
            (0, e(0)),
            (0, Op::Adv(5000)),
            (0, e(1)),
            (0, Op::Adv(3000)),
            (0, Op::Instant { kind: 5, label: 1, args: vec![] }),
            (0, Op::Close),
            (0, Op::Integer { kind: 6, label: 7, args: vec![], value: 9 }),
            (1, e(9)),
            (1, Op::Adv(1001)),
            (1, Op::Close),
            (0, Op::Close),
        ],
        strict: false,
        repeat: labels as u32 * 2,
    }
}

/// Numbers of events of one label that need more than 16 bits.
pub fn count_hist(n: u32) -> Hist {
    Hist {
        threads: vec![(9, 100)],
        texts: vec!["counted".into()],
        ops: vec![
            (0, Op::Open { kind: 0, label: 0, args: vec![] }),
            (0, Op::Adv(3)),
            (0, Op::Close),
            (0, Op::Instant { kind: 5, label: 0, args: vec![] }),
            (0, Op::Integer { kind: 6, label: 0, args: vec![], value: 70_001 }),
        ],
        strict: false,
        repeat: n,
    }
}

/// Durations whose sums have no exact 64-bit floating-point number.
pub fn huge_hist() -> Hist {
    let mut ops = vec![];
    for t in 0..90u8 {
        ops.push((t, Op::Open { kind: t % 2, label: t % 3, args: vec![] }));
        ops.push((t, Op::Adv(1_000_001)));
        ops.push((t, Op::Open { kind: 0, label: 3 + t % 2, args: vec![] }));
        ops.push((t, Op::Adv(MAX_INTERVAL - 3_000_000 - 2 * t as u64)));
        ops.push((t, Op::Close));
        ops.push((t, Op::Adv(1_000_003)));
        ops.push((t, Op::Close));
    }
    Hist { threads: (0..90).map(|t| (t * 5 + 2, 7)).collect(), texts: (0..5).map(|i| format!("long{i}")).collect(), ops, strict: false, repeat: 1 }
}

/// Boundary histories for everything that reads recordings.
pub fn big_hists() -> Vec<Hist> {
    vec![deep_hist(300), wide_hist(700, 300), deep_hist(1_500), huge_hist()]
}
