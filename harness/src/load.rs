//! From generated content to loaded profiles and back to the model's terms.
use crate::codec::{self, Layout, Meta};
use crate::model::{Ev, Payload};
use analyzeme::{EventPayload, ProfilingData, ProfilingDataBuilder, Timestamp};
use std::time::{Duration, SystemTime, UNIX_EPOCH};

pub fn epoch(start_ns: u64) -> SystemTime {
    UNIX_EPOCH + Duration::from_nanos(start_ns)
}

pub fn payload(p: &Payload, start_ns: u64) -> EventPayload {
    let t = |n: u64| epoch(start_ns) + Duration::from_nanos(n);
    match *p {
        Payload::Interval(a, b) => EventPayload::Timestamp(Timestamp::Interval { start: t(a), end: t(b) }),
        Payload::Instant(a) => EventPayload::Timestamp(Timestamp::Instant(t(a))),
        Payload::Integer(v) => EventPayload::Integer(v),
    }
}

/// How a generated recording becomes a loaded profile.
pub fn load(meta: &Meta, events: &[Ev], layout: &Layout, via: u8) -> Result<ProfilingData, String> {
    match via % 4 {
        0 | 1 => ProfilingData::from_paged_buffer(codec::encode_file(meta, events, layout, 9), None)
            .map_err(|e| format!("loading v9: {e}")),
        2 => ProfilingData::from_paged_buffer(codec::encode_file(meta, events, layout, 8), None)
            .map_err(|e| format!("loading v8: {e}")),
        _ => {
            // The library's own builder (metadata is fixed: start 0, pid 0).
            let mut b = ProfilingDataBuilder::new();
            for e in events {
                let id = full_id(e);
                match e.payload {
                    Payload::Interval(s, t) => b.interval(&e.kind, &id, e.tid, s, t, |_| {}),
                    Payload::Instant(t) => b.instant(&e.kind, &id, e.tid, t),
                    Payload::Integer(v) => b.integer(&e.kind, &id, e.tid, v),
                };
            }
            Ok(b.into_profiling_data())
        }
    }
}

pub fn start_of(meta: &Meta, via: u8) -> u64 {
    if via % 4 == 3 {
        0
    } else {
        meta.start_ns
    }
}

pub fn full_id(e: &Ev) -> String {
    let mut f = e.label.clone();
    for a in &e.args {
        f.push('\x1E');
        f.push_str(a);
    }
    f
}

pub fn same_event(got: &analyzeme::Event<'_>, want: &Ev, start_ns: u64) -> Result<(), String> {
    let ok = got.event_kind == want.kind
        && got.label == want.label
        && got.additional_data.len() == want.args.len()
        && got.additional_data.iter().zip(&want.args).all(|(a, b)| a == b)
        && got.thread_id == want.tid
        && got.payload == payload(&want.payload, start_ns);
    if ok {
        Ok(())
    } else {
        Err(format!("event differs: got {got:?}, expected {want:?} (start {start_ns})"))
    }
}
