//! C04: the 32-byte event record.
use crate::driver::*;
use crate::load::epoch;
use crate::model::{MAX_INTERVAL, MAX_VALUE};
use crate::text::boundary_u64;
use analyzeme::{EventPayload, Timestamp};
use measureme::{EventId, RawEvent, StringId};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::time::Duration;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Pl {
    Interval(u64, u64),
    Instant(u64),
    Integer(u64),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub kind: u64,
    pub id: u64,
    pub tid: u32,
    pub start: u64,
    pub p: Pl,
}

const BOUNDS: &[u64] = &[0, 1 << 16, 1 << 32, 1 << 47, MAX_INTERVAL, MAX_VALUE, 1 << 48, u64::MAX, u32::MAX as u64, 0xFFFF_0000_0000, 0xFFFF_FFFF_0000];

fn val() -> BoxedStrategy<u64> {
    prop_oneof![4 => boundary_u64(BOUNDS), 4 => 0..=MAX_VALUE, 2 => 0..=MAX_INTERVAL].boxed()
}

pub struct P;
impl Prop for P {
    type Case = Case;
    const ID: &'static str = "C04";
    const RULE: &'static str = "Event fields over their full ranges (64-bit string ids, 32-bit thread ids, payloads over 64 bits), biased to powers of two, the 48-bit limits and the reserved markers; valid ones are compared with the documented 32-byte layout and read back, invalid ones must be refused. Non-trivial: a payload half or an id uses more than 32 bits, or the value lies within 3 of a limit, or must be refused.";
    fn cases(t: Tier) -> u32 {
        t.pick(8_000_000, 400_000_000)
    }
    fn strategy(_t: Tier) -> BoxedStrategy<Case> {
        let p = prop_oneof![
            2 => (val(), val()).prop_map(|(a, b)| Pl::Interval(a, b)),
            3 => (val(), val()).prop_map(|(a, b)| Pl::Interval(a.min(b), a.max(b))),
            1 => (val(), 0u64..3).prop_map(|(a, d)| Pl::Interval(a, a.saturating_add(d))),
            3 => val().prop_map(Pl::Instant),
            3 => val().prop_map(Pl::Integer),
        ];
        (boundary_u64(BOUNDS), boundary_u64(BOUNDS), crate::model::tid(), 0u64..2_000_000_000_000_000_000, p)
            .prop_map(|(kind, id, tid, start, p)| Case { kind, id, tid, start, p })
            .boxed()
    }
    fn fixed(_t: Tier) -> Vec<Case> {
        let mut v = vec![];
        for a in [0, 1, MAX_INTERVAL - 1, MAX_INTERVAL, MAX_INTERVAL + 1, MAX_VALUE, MAX_VALUE + 1, u64::MAX] {
            for p in [Pl::Instant(a), Pl::Integer(a), Pl::Interval(a, a), Pl::Interval(0, a), Pl::Interval(1, a)] {
                v.push(Case { kind: u64::MAX, id: 1, tid: u32::MAX, start: 0, p });
            }
        }
        v
    }
    fn check(c: &Case, ctx: &mut Ctx) -> Result<(), String> {
        let (kind, id) = (StringId::new(c.kind), EventId::from_u64(c.id));
        let valid = match c.p {
            Pl::Interval(a, b) => a <= b && b <= MAX_INTERVAL,
            Pl::Instant(a) | Pl::Integer(a) => a <= MAX_VALUE,
        };
        let made = catch(|| match c.p {
            Pl::Interval(a, b) => RawEvent::new_interval(kind, id, c.tid, a, b),
            Pl::Instant(a) => RawEvent::new_instant(kind, id, c.tid, a),
            Pl::Integer(a) => RawEvent::new_integer(kind, id, c.tid, a),
        });
        let raw = match (made, valid) {
            (Err(_), false) => {
                ctx.class("refused");
                ctx.nontrivial();
                return Ok(());
            }
            (Ok(r), false) => return Err(format!("unrepresentable {:?} was accepted as {:?}", c.p, r)),
            (Err(m), true) => return Err(format!("representable {:?} was refused: {m}", c.p)),
            (Ok(r), true) => r,
        };
        let (v1, v2) = match c.p {
            Pl::Interval(a, b) => (a, b),
            Pl::Instant(a) => (a, 0xFFFF_FFFF_FFFF),
            Pl::Integer(a) => (a, 0xFFFF_FFFF_FFFE),
        };
        // The documented layout, written out.
        let mut want = [0u8; 32];
        want[0..8].copy_from_slice(&c.kind.to_le_bytes());
        want[8..16].copy_from_slice(&c.id.to_le_bytes());
        want[16..20].copy_from_slice(&c.tid.to_le_bytes());
        want[20..24].copy_from_slice(&v1.to_le_bytes()[0..4]);
        want[24..28].copy_from_slice(&v2.to_le_bytes()[0..4]);
        want[28..30].copy_from_slice(&v2.to_le_bytes()[4..6]);
        want[30..32].copy_from_slice(&v1.to_le_bytes()[4..6]);
        let mut got = [0xA5u8; 32];
        raw.serialize(&mut got);
        ensure_eq!(got, want, "serialised record of {:?}", c.p);
        let back = RawEvent::deserialize(&want);
        ensure_eq!(back, raw, "record read back");
        ensure_eq!(back.event_kind.as_u64(), c.kind, "event kind");
        ensure_eq!(back.event_id.as_u64(), c.id, "event id");
        ensure_eq!(back.event_id.to_string_id().as_u64(), c.id, "event id as string id");
        ensure_eq!(back.thread_id, c.tid, "thread id");
        ensure_eq!(back.is_instant(), matches!(c.p, Pl::Instant(_)), "is_instant");
        ensure_eq!(back.is_integer(), matches!(c.p, Pl::Integer(_)), "is_integer");
        ensure_eq!(back.start_value(), v1, "start value");
        ensure_eq!(back.end_value(), v2, "end value");
        ensure_eq!(back.value(), v1, "value");
        let t = |n| epoch(c.start) + Duration::from_nanos(n);
        let want = match c.p {
            Pl::Interval(a, b) => EventPayload::Timestamp(Timestamp::Interval { start: t(a), end: t(b) }),
            Pl::Instant(a) => EventPayload::Timestamp(Timestamp::Instant(t(a))),
            Pl::Integer(a) => EventPayload::Integer(a),
        };
        ensure_eq!(EventPayload::from_raw_event(&back, epoch(c.start)), want, "decoded payload");
        ctx.class(match c.p {
            Pl::Interval(..) => "interval",
            Pl::Instant(_) => "instant",
            Pl::Integer(_) => "integer",
        });
        let wide = v1 >> 32 != 0 || (matches!(c.p, Pl::Interval(..)) && v2 >> 32 != 0) || c.kind >> 32 != 0 || c.id >> 32 != 0;
        ctx.class_if(wide, "more than 32 bits used");
        ctx.nontrivial_if(wide || v1 >= MAX_INTERVAL - 3 || v1 < 3);
        Ok(())
    }
}
