//! C03: the string table.
use crate::driver::*;
use decodeme::stringtable::StringTable;
use measureme::{PageTag, SerializationSinkBuilder, StringComponent, StringId, StringTableBuilder};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::sync::Arc;

const MAX_VIRTUAL: u64 = 100_000_000;
const METADATA: u64 = MAX_VIRTUAL + 1;
const INVALID: u64 = MAX_VIRTUAL + 2;
const FIRST: u64 = MAX_VIRTUAL + 3;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Comp {
    Val(String),
    /// an earlier string, counted from the end
    Ref(u16),
    Virt(u8),
    Invalid,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    Str(String),
    /// plain string of this length
    Long(u32, char),
    Comps(Vec<Comp>),
    /// fixed-size array form
    Arr(Vec<Comp>),
    Map(u8, u16),
    /// the next `n` pool ids plus a dense range
    Bulk { first: u8, n: u8, dense: u16, target: u16 },
    /// must be refused: (id above the user range, bulk?)
    BadMap(u64, bool, u16),
    /// must be refused: (target that is no stored string, bulk?)
    BadTarget(u64, bool),
    /// a string whose address makes the decoder's single-reference test most delicate:
    /// `[Ref, text]` with exactly `address` further bytes
    SelfSized(u16),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub meta: String,
    /// distinct virtual ids
    pub pool: Vec<u32>,
    pub ops: Vec<Op>,
    /// 0, or: addresses start beyond this offset (only boundary cases)
    #[serde(default)]
    pub huge: u64,
}

fn comp() -> BoxedStrategy<Comp> {
    prop_oneof![
        4 => crate::text::any_text().prop_map(Comp::Val),
        5 => prop_oneof![2 => 0u16..4, 1 => any::<u16>()].prop_map(Comp::Ref),
        3 => any::<u8>().prop_map(Comp::Virt),
        1 => Just(Comp::Invalid),
    ]
    .boxed()
}

fn vid() -> BoxedStrategy<u32> {
    prop_oneof![
        3 => 0u32..10,
        2 => 250u32..260,
        1 => 65_534u32..65_538,
        1 => proptest::sample::select(vec![0xFFFFu32, 0xFEFE, 0xFFFE, 0xFEFF, 0xFF_FFFF, 0xFE_FEFE, 0x00FF_00FF, 0x5F5_E0FF, 99_999_999, 100_000_000, 0x5F5_E0FE]),
        2 => 0u32..=100_000_000,
    ]
    .boxed()
}

#[derive(Clone)]
enum Item {
    Text(String),
    Node(usize),
    Virt(u32),
    Unknown,
}

struct Model {
    nodes: Vec<Vec<Item>>,
    virt: BTreeMap<u32, usize>,
}

const LIMIT: usize = 300_000;

impl Model {
    /// Expanded length, None on a cycle or when too long.
    fn len(&self, n: usize, memo: &mut Vec<Option<usize>>, open: &mut Vec<bool>, depth: usize) -> Option<usize> {
        if let Some(l) = memo[n] {
            return Some(l);
        }
        if open[n] || depth > 600 {
            return None;
        }
        open[n] = true;
        let mut l = 0;
        for i in &self.nodes[n] {
            l += match i {
                Item::Text(t) => t.len(),
                Item::Node(m) => self.len(*m, memo, open, depth + 1)?,
                Item::Virt(v) => match self.virt.get(v) {
                    Some(m) => self.len(*m, memo, open, depth + 1)?,
                    None => 9,
                },
                Item::Unknown => 9,
            };
            if l > LIMIT {
                return None;
            }
        }
        open[n] = false;
        memo[n] = Some(l);
        Some(l)
    }
    fn ok(&self) -> bool {
        let mut memo = vec![None; self.nodes.len()];
        let mut open = vec![false; self.nodes.len()];
        (0..self.nodes.len()).all(|n| self.len(n, &mut memo, &mut open, 0).is_some())
    }
    fn expand(&self, n: usize, memo: &mut Vec<Option<Arc<String>>>) -> Arc<String> {
        if let Some(s) = &memo[n] {
            return s.clone();
        }
        let mut s = String::new();
        for i in &self.nodes[n] {
            match i {
                Item::Text(t) => s.push_str(t),
                Item::Node(m) => s.push_str(&self.expand(*m, memo)),
                Item::Virt(v) => match self.virt.get(v) {
                    Some(m) => s.push_str(&self.expand(*m, memo)),
                    None => s.push_str("<unknown>"),
                },
                Item::Unknown => s.push_str("<unknown>"),
            }
        }
        let s = Arc::new(s);
        memo[n] = Some(s.clone());
        s
    }
}

macro_rules! arr {
    ($st:expr, $v:expr, $($n:literal),*) => {
        match $v.len() {
            $( $n => { let a: [StringComponent<'_>; $n] = $v.try_into().ok().unwrap(); $st.alloc(&a) } )*
            _ => unreachable!(),
        }
    };
}

pub struct P;
impl Prop for P {
    type Case = Case;
    const ID: &'static str = "C03";
    const RULE: &'static str = "Allocation histories: plain strings, component lists (slice and array form) mixing text, references to earlier strings, virtual ids and the invalid id, single and bulk mappings before or after use, refused mappings; any Unicode text, lengths up to several pages, ids chosen to contain the bytes 0xFE and 0xFF. Non-trivial: at least one string of nesting depth 2 or more, or a virtual id used before it is mapped, or a bulk mapping.";
    const ASSUMPTIONS: &'static [&'static str] = &[
        "strings do not refer to themselves through virtual ids, and a virtual id is mapped once",
    ];
    fn cases(t: Tier) -> u32 {
        t.pick(200_000, 6_000_000)
    }
    fn strategy(_t: Tier) -> BoxedStrategy<Case> {
        let op = prop_oneof![
            8 => crate::text::any_text().prop_map(Op::Str),
            2 => (prop_oneof![5 => 0u32..600, 1 => 120u32..140, 1 => 0u32..300_000], any::<char>()).prop_map(|(n, c)| Op::Long(n, c)),
            12 => proptest::collection::vec(comp(), 0..7).prop_map(Op::Comps),
            1 => proptest::collection::vec(comp(), 7..140).prop_map(Op::Comps),
            4 => proptest::collection::vec(comp(), 0..=16).prop_map(Op::Arr),
            6 => (any::<u8>(), prop_oneof![2 => 0u16..4, 1 => any::<u16>()]).prop_map(|(v, t)| Op::Map(v, t)),
            2 => (any::<u8>(), 0u8..4, prop_oneof![3 => 0u16..12, 1 => 0u16..3000], any::<u16>())
                .prop_map(|(first, n, dense, target)| Op::Bulk { first, n, dense, target }),
            2 => (prop_oneof![3 => METADATA..FIRST + 3, 1 => any::<u64>().prop_map(|x| x | 1 << 27), 1 => Just(u64::MAX)], any::<bool>(), any::<u16>())
                .prop_map(|(id, b, t)| Op::BadMap(id, b, t)),
            2 => (prop_oneof![1 => Just(0u64), 1 => Just(METADATA), 1 => Just(INVALID), 2 => 0..=INVALID], any::<bool>())
                .prop_map(|(id, b)| Op::BadTarget(id, b)),
            2 => any::<u16>().prop_map(Op::SelfSized),
        ];
        (
            prop_oneof![3 => Just("{}".to_string()), 1 => crate::text::any_text()],
            proptest::collection::vec(vid(), 1..6),
            proptest::collection::vec(op, 1..25),
        )
            .prop_map(|(meta, mut pool, ops)| {
                let mut seen = vec![];
                pool.retain(|v| {
                    let new = !seen.contains(v);
                    seen.push(*v);
                    new
                });
                Case { meta, pool, ops, huge: 0 }
            })
            .boxed()
    }
    fn fixed(_t: Tier) -> Vec<Case> {
        let base = |huge| Case {
            meta: "{}".into(),
            pool: vec![1, 100_000_000, 0, 7],
            ops: vec![
                Op::Str("first".into()),
                Op::Map(0, 0),
                Op::Comps(vec![Comp::Ref(0), Comp::Val("\u{1e}x".into()), Comp::Ref(0), Comp::Virt(0), Comp::Virt(1)]),
                Op::Comps(vec![Comp::Ref(0)]),
                Op::Map(1, 2),
                Op::Comps(vec![Comp::Virt(2)]),
                Op::Bulk { first: 2, n: 2, dense: 3, target: 0 },
                Op::Comps(vec![Comp::Invalid, Comp::Virt(1), Comp::Ref(1)]),
            ],
            huge,
        };
        let mut v = vec![];
        // Addresses beyond 32 bits, and ids (address + first id) crossing 32 bits.
        for h in [(1u64 << 32) - FIRST - 60, (1 << 32) - 100, (1 << 32) + 5, (1 << 32) + 0xFEFF_FE00u64] {
            v.push(base(h));
        }
        // A chain of references, deep.
        let mut ops = vec![Op::Str("x".into())];
        for _ in 0..500 {
            ops.push(Op::Comps(vec![Comp::Val("<".into()), Comp::Ref(0), Comp::Val(">".into())]));
        }
        v.push(Case { meta: "{}".into(), pool: vec![0], ops, huge: 0 });
        // Very many components, in one page and in more than that.
        for n in [300usize, 3000, 40_000] {
            let many = (0..n)
                .map(|i| match i % 5 {
                    0 => Comp::Val(format!("{i};")),
                    1 => Comp::Ref((i / 5 % 3) as u16),
                    2 => Comp::Virt((i / 5 % 2) as u8),
                    3 => Comp::Val("\u{e9}".into()),
                    _ => Comp::Ref(1),
                })
                .collect();
            v.push(Case {
                meta: "{}".into(),
                pool: vec![3, 100_000_000],
                ops: vec![Op::Str("a".into()), Op::Str("\u{1F600}bc".into()), Op::Map(0, 0), Op::Comps(vec![Comp::Ref(0), Comp::Ref(1)]), Op::Comps(many), Op::Comps(vec![Comp::Ref(0), Comp::Val("!".into())])],
                huge: 0,
            });
        }
        // More than a page of index entries by bulk mapping, used afterwards and before.
        v.push(Case {
            meta: "{}".into(),
            pool: vec![5, 4],
            ops: vec![
                Op::Comps(vec![Comp::Virt(0), Comp::Val("a".into())]),
                Op::Str("t".into()),
                Op::Bulk { first: 0, n: 2, dense: 40_000, target: 0 },
                Op::Bulk { first: 0, n: 0, dense: 7, target: 0 },
                Op::Comps(vec![Comp::Virt(1), Comp::Ref(0)]),
            ],
            huge: 0,
        });
        v
    }

    fn check(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
        let b = SerializationSinkBuilder::new_in_memory();
        let null;
        let data_sink = Arc::new(if case.huge > 0 {
            null = SerializationSinkBuilder::new_from_file(
                std::fs::OpenOptions::new().write(true).open("/dev/null").expect("harness: /dev/null"),
            )
            .map_err(|e| e.to_string())?;
            null.new_sink(PageTag::StringData)
        } else {
            b.new_sink(PageTag::StringData)
        });
        let index_sink = Arc::new(b.new_sink(PageTag::StringIndex));
        let st = StringTableBuilder::new(data_sink.clone(), index_sink.clone()).map_err(|e| e.to_string())?;
        st.alloc_metadata(&case.meta[..]);
        if case.huge > 0 {
            let chunk = vec![0u8; 16 << 20];
            let mut at = 8 + case.meta.len() as u64 + 1;
            while at < case.huge {
                let n = (case.huge - at).min(chunk.len() as u64) as usize;
                data_sink.write_bytes_atomic(&chunk[..n]);
                at += n as u64;
            }
            ctx.class("addresses beyond 32 bits");
        }

        let mut m = Model { nodes: vec![], virt: BTreeMap::new() };
        let mut ids: Vec<StringId> = vec![];
        // encodings for the `huge` cases, by address
        let mut enc: Vec<(u64, Vec<u8>)> = vec![];
        let mut used_virt: Vec<u32> = vec![];
        let mut addr = 8 + case.meta.len() as u64 + 1;
        if case.huge > 0 {
            addr = case.huge;
        }
        let pick = |sel: u16, n: usize| n - 1 - (sel as usize % n);
        let (mut late, mut bulk, mut deep) = (false, false, false);

        for op in &case.ops {
            match op {
                Op::Str(_) | Op::Long(..) => {
                    let s = match op {
                        Op::Str(s) => s.clone(),
                        Op::Long(n, c) => {
                            let mut s: String = std::iter::repeat(*c).take(*n as usize / c.len_utf8()).collect();
                            s.push('.');
                            s
                        }
                        _ => unreachable!(),
                    };
                    m.nodes.push(vec![Item::Text(s.clone())]);
                    let id = st.alloc(&s[..]);
                    ensure_eq!(id.as_u64(), addr + FIRST, "id of a plain string");
                    let mut e = s.into_bytes();
                    e.push(0xFF);
                    addr += e.len() as u64;
                    ids.push(id);
                    if case.huge > 0 {
                        enc.push((id.to_addr().0, e));
                    }
                }
                Op::Comps(_) | Op::Arr(_) | Op::SelfSized(_) => {
                    let sized;
                    let cs: &[Comp] = match op {
                        Op::Comps(c) | Op::Arr(c) => c,
                        Op::SelfSized(t) => {
                            if ids.is_empty() || addr > 2000 {
                                continue;
                            }
                            sized = vec![Comp::Ref(*t), Comp::Val("s".repeat(addr as usize))];
                            ctx.class("composite sized like its address");
                            &sized
                        }
                        _ => unreachable!(),
                    };
                    let mut items = vec![];
                    let mut parts: Vec<StringComponent<'_>> = vec![];
                    let mut e = vec![];
                    for c in cs {
                        let r: Option<u64> = match c {
                            Comp::Val(s) => {
                                items.push(Item::Text(s.clone()));
                                parts.push(StringComponent::Value(s));
                                e.extend_from_slice(s.as_bytes());
                                None
                            }
                            Comp::Ref(sel) => {
                                if ids.is_empty() {
                                    continue;
                                }
                                let k = pick(*sel, ids.len());
                                items.push(Item::Node(k));
                                deep |= m.nodes[k].len() > 1;
                                Some(ids[k].as_u64())
                            }
                            Comp::Virt(v) => {
                                let v = case.pool[*v as usize % case.pool.len()];
                                items.push(Item::Virt(v));
                                used_virt.push(v);
                                Some(v as u64)
                            }
                            Comp::Invalid => {
                                items.push(Item::Unknown);
                                Some(INVALID)
                            }
                        };
                        if let Some(r) = r {
                            parts.push(StringComponent::Ref(if r == INVALID { StringId::INVALID } else { StringId::new(r) }));
                            e.push(0xFE);
                            e.extend(r.to_le_bytes());
                        }
                    }
                    e.push(0xFF);
                    m.nodes.push(items);
                    if !m.ok() {
                        m.nodes.pop();
                        continue;
                    }
                    let id = if matches!(op, Op::Arr(_)) && parts.len() <= 16 {
                        ctx.class("array form");
                        arr!(st, parts, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16)
                    } else {
                        st.alloc(&parts[..])
                    };
                    ensure_eq!(id.as_u64(), addr + FIRST, "id of a composite string");
                    addr += e.len() as u64;
                    ids.push(id);
                    if case.huge > 0 {
                        enc.push((id.to_addr().0, e));
                    }
                }
                Op::Map(v, sel) => {
                    if ids.is_empty() {
                        continue;
                    }
                    let v = case.pool[*v as usize % case.pool.len()];
                    if m.virt.contains_key(&v) {
                        continue;
                    }
                    let k = pick(*sel, ids.len());
                    m.virt.insert(v, k);
                    if !m.ok() {
                        m.virt.remove(&v);
                        continue;
                    }
                    late |= used_virt.contains(&v);
                    st.map_virtual_to_concrete_string(StringId::new_virtual(v), ids[k]);
                }
                Op::Bulk { first, n, dense, target } => {
                    if ids.is_empty() {
                        continue;
                    }
                    let k = pick(*target, ids.len());
                    let mut vs: Vec<u32> = (0..*n as usize).map(|i| case.pool[(*first as usize + i) % case.pool.len()]).collect();
                    let d0 = case.pool[*first as usize % case.pool.len()].min(99_000_000) + 1000;
                    vs.extend((0..*dense as u32).map(|i| d0 + i));
                    let mut new: Vec<u32> = vs.into_iter().filter(|v| !m.virt.contains_key(v)).collect();
                    new.sort();
                    new.dedup();
                    for v in &new {
                        m.virt.insert(*v, k);
                    }
                    if !m.ok() {
                        for v in &new {
                            m.virt.remove(v);
                        }
                        continue;
                    }
                    late |= new.iter().any(|v| used_virt.contains(v));
                    bulk |= new.len() > 1;
                    let it: Vec<StringId> = new.iter().map(|v| StringId::new_virtual(*v)).collect();
                    st.bulk_map_virtual_to_single_concrete_string(it.into_iter(), ids[k]);
                }
                Op::BadMap(id, is_bulk, sel) => {
                    if ids.is_empty() {
                        continue;
                    }
                    let k = pick(*sel, ids.len());
                    if *id <= MAX_VIRTUAL {
                        continue;
                    }
                    ensure!(catch(|| StringId::new_virtual(*id)).is_err(), "virtual id {id} outside the user range was made");
                    let r = catch(|| {
                        if *is_bulk {
                            st.bulk_map_virtual_to_single_concrete_string(
                                vec![StringId::new(*id)].into_iter(),
                                ids[k],
                            )
                        } else {
                            st.map_virtual_to_concrete_string(StringId::new(*id), ids[k])
                        }
                    });
                    ensure!(r.is_err(), "id {id} outside the user range was mapped (bulk: {is_bulk})");
                    ctx.class("refused mapping");
                }
                Op::BadTarget(id, is_bulk) => {
                    let target = StringId::new(*id);
                    let v = StringId::new_virtual(case.pool[0]);
                    let r = catch(|| {
                        if *is_bulk {
                            st.bulk_map_virtual_to_single_concrete_string(vec![v].into_iter(), target)
                        } else {
                            st.map_virtual_to_concrete_string(v, target)
                        }
                    });
                    ensure!(r.is_err(), "a virtual id was mapped to id {id}, which is no stored string (bulk: {is_bulk})");
                    ctx.class("refused target");
                }
            }
        }
        drop(st);
        let index = Arc::try_unwrap(index_sink).ok().unwrap().into_bytes();
        let data = if case.huge > 0 {
            drop(data_sink);
            // The written side is checked through the ids above; the read side gets the same
            // encodings at the same (sparse) addresses.
            let mut v = vec![0u8; addr as usize];
            v[0..8].copy_from_slice(b"MMSD\x09\0\0\0");
            v[8..8 + case.meta.len()].copy_from_slice(case.meta.as_bytes());
            v[8 + case.meta.len()] = 0xFF;
            for (a, e) in &enc {
                v[*a as usize..*a as usize + e.len()].copy_from_slice(e);
            }
            v
        } else {
            Arc::try_unwrap(data_sink).ok().unwrap().into_bytes()
        };
        let table = StringTable::new(data, index, None).map_err(|e| format!("string table does not load: {e}"))?;

        let read = |id: StringId, want: &str, what: &str| -> Result<(), String> {
            let s = table.get(id);
            let a = s.to_string();
            let mut b = String::from("prefix");
            s.write_to_string(&mut b);
            if a != want {
                return Err(format!("{what} {id:?}: to_string gives {a:?}, expected {want:?}"));
            }
            if b.strip_prefix("prefix") != Some(want) {
                return Err(format!("{what} {id:?}: write_to_string gives {b:?}, expected prefix + {want:?}"));
            }
            Ok(())
        };
        let mut memo = vec![None; m.nodes.len()];
        for (k, id) in ids.iter().enumerate() {
            let want = m.expand(k, &mut memo);
            read(*id, &want, "string")?;
        }
        for v in &case.pool {
            match m.virt.get(v) {
                Some(k) => {
                    let want = m.expand(*k, &mut memo);
                    read(StringId::new_virtual(*v), &want, "virtual id")?
                }
                None => {
                    read(StringId::new_virtual(*v), "<unknown>", "unmapped virtual id")?;
                    ctx.class("unmapped virtual id read")
                }
            }
        }
        let mut spent = 0usize;
        for (i, (v, k)) in m.virt.iter().enumerate() {
            // All of them, unless they are very long.
            if spent > 8_000_000 && i % 64 != 0 {
                continue;
            }
            let want = m.expand(*k, &mut memo);
            spent += want.len() + 16;
            read(StringId::new_virtual(*v), &want, "virtual id")?;
        }
        read(StringId::INVALID, "<unknown>", "invalid id")?;
        ensure_eq!(table.get_metadata().to_string(), case.meta, "metadata string");
        ctx.class_if(late, "virtual id used before it was mapped");
        ctx.class_if(bulk, "bulk mapping");
        ctx.class_if(deep, "nesting of depth 2 or more");
        ctx.count("strings", ids.len() as u64);
        ctx.nontrivial_if(late || bulk || deep);
        Ok(())
    }
}
