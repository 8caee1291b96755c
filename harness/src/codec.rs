//! An encoder for the file format, written from the documentation (not from the library), for
//! the current version 9 and the previous version 8.
use crate::model::{Ev, Payload};
use serde::{Deserialize, Serialize};
use std::collections::HashMap;

pub const TAG_EVENTS: u8 = 0;
pub const TAG_DATA: u8 = 1;
pub const TAG_INDEX: u8 = 2;
pub const MAX_USER_VIRTUAL: u64 = 100_000_000;
pub const METADATA_ID: u64 = MAX_USER_VIRTUAL + 1;
pub const FIRST_REGULAR: u64 = MAX_USER_VIRTUAL + 3;
pub const MAX_PAGE: usize = 256 * 1024;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Meta {
    pub start_ns: u64,
    pub pid: u32,
    pub cmd: String,
}

impl Default for Meta {
    fn default() -> Self {
        Meta { start_ns: 0, pid: 0, cmd: "test cmd ".into() }
    }
}

/// How the content is laid out in the file.
#[derive(Clone, Debug, Serialize, Deserialize, Default)]
pub struct Layout {
    /// Selects, cyclically, how the strings of each event are assembled.
    pub shapes: Vec<u8>,
    /// Pages in order: (stream, size in units).
    pub cuts: Vec<(u8, u32)>,
    /// Which stream's rest comes first at the end.
    pub tail: u8,
    /// First virtual id used.
    pub virt0: u32,
}

pub struct Streams {
    pub data: Vec<u8>,
    pub index: Vec<u8>,
    pub events: Vec<u8>,
}

enum C<'a> {
    V(&'a str),
    R(u64),
}

struct Enc {
    wide: bool,
    data: Vec<u8>,
    index: Vec<u8>,
    events: Vec<u8>,
    interned: HashMap<String, u64>,
    next_virtual: u64,
    /// index entries written at the end (late mapping)
    late: Vec<(u64, u64)>,
}

impl Enc {
    fn num(&self, v: u64) -> Vec<u8> {
        if self.wide {
            v.to_le_bytes().to_vec()
        } else {
            u32::try_from(v).expect("harness: v8 id range").to_le_bytes().to_vec()
        }
    }
    fn encode(&self, cs: &[C]) -> Vec<u8> {
        let mut b = Vec::new();
        for c in cs {
            match c {
                C::V(s) => b.extend_from_slice(s.as_bytes()),
                C::R(id) => {
                    b.push(0xFE);
                    b.extend(self.num(*id));
                }
            }
        }
        b.push(0xFF);
        b
    }
    fn alloc(&mut self, cs: &[C]) -> u64 {
        let b = self.encode(cs);
        if !self.wide {
            // The released v8 decoder misreads a composite that starts with a reference when its
            // address equals the offset of its first 0xFF byte minus 5 (not ours to fix):
            // move the string out of the way.
            loop {
                let p = self.data.len();
                let first_ff = b.iter().position(|x| *x == 0xFF).unwrap();
                if b[0] == 0xFE && first_ff == p + 5 {
                    self.data.extend_from_slice(b"pad\xFF");
                } else {
                    break;
                }
            }
        }
        let id = self.data.len() as u64 + FIRST_REGULAR;
        self.data.extend(b);
        id
    }
    fn plain(&mut self, s: &str) -> u64 {
        self.alloc(&[C::V(s)])
    }
    fn intern(&mut self, s: &str) -> u64 {
        if let Some(id) = self.interned.get(s) {
            return *id;
        }
        let id = self.plain(s);
        self.interned.insert(s.to_string(), id);
        id
    }
    fn map(&mut self, virt: u64, id: u64) {
        let e = [self.num(virt), self.num(id - FIRST_REGULAR)].concat();
        self.index.extend(e);
    }
    fn virt(&mut self, id: u64, late: bool) -> u64 {
        let v = self.next_virtual % (MAX_USER_VIRTUAL + 1);
        self.next_virtual += 1;
        if late {
            self.late.push((v, id));
        } else {
            self.map(v, id);
        }
        v
    }
    fn kind(&mut self, s: &str, shape: u8) -> u64 {
        match shape % 6 {
            0 | 1 | 2 => self.intern(s),
            3 => self.plain(s),
            4 => {
                let i = self.intern(s);
                self.virt(i, shape & 64 != 0)
            }
            _ => {
                let i = self.intern(s);
                self.alloc(&[C::R(i)])
            }
        }
    }
    fn event_id(&mut self, label: &str, args: &[String], shape: u8) -> u64 {
        let full = {
            let mut f = label.to_string();
            for a in args {
                f.push('\x1E');
                f.push_str(a);
            }
            f
        };
        let late = shape & 64 != 0;
        match shape % 8 {
            0 => self.intern(&full),
            1 => self.plain(&full),
            2 => {
                let i = self.intern(&full);
                self.virt(i, late)
            }
            3 => {
                let i = self.intern(&full);
                self.alloc(&[C::R(i)])
            }
            4 => {
                let prefix = if args.is_empty() { label.to_string() } else { format!("{label}\x1E") };
                let ids: Vec<u64> = args.iter().map(|a| self.intern(a)).collect();
                let mut cs = vec![C::V(&prefix)];
                for (i, id) in ids.iter().enumerate() {
                    if i > 0 {
                        cs.push(C::V("\x1E"));
                    }
                    cs.push(C::R(*id));
                }
                self.alloc(&cs)
            }
            n => {
                let mut l = self.intern(label);
                if n == 6 {
                    l = self.virt(l, late);
                }
                let mut ids: Vec<u64> = Vec::new();
                for (i, a) in args.iter().enumerate() {
                    let mut id = self.intern(a);
                    if n == 7 && i % 2 == 0 {
                        id = self.alloc(&[C::R(id)]);
                    }
                    ids.push(id);
                }
                let mut cs = vec![C::R(l)];
                for id in ids {
                    cs.push(C::V("\x1E"));
                    cs.push(C::R(id));
                }
                let id = self.alloc(&cs);
                if shape & 32 != 0 {
                    self.virt(id, late)
                } else {
                    id
                }
            }
        }
    }
}

pub fn raw_payload(p: &Payload) -> (u32, u32, u32) {
    let (a, b) = match *p {
        Payload::Interval(s, e) => (s, e),
        Payload::Instant(t) => (t, 0xFFFF_FFFF_FFFF),
        Payload::Integer(v) => (v, 0xFFFF_FFFF_FFFE),
    };
    (a as u32, b as u32, (((a >> 32) as u32) << 16) | (b >> 32) as u32)
}

pub fn meta_json(meta: &Meta) -> String {
    serde_json::json!({"start_time": meta.start_ns, "process_id": meta.pid, "cmd": meta.cmd, "counter": "\"wall-time\""})
        .to_string()
}

pub fn encode_streams(meta: &Meta, events: &[Ev], layout: &Layout, version: u32) -> Streams {
    assert!(version == 8 || version == 9);
    let wide = version == 9;
    let head = |m: &[u8; 4]| {
        let mut v = m.to_vec();
        v.extend(version.to_le_bytes());
        v
    };
    let mut e = Enc {
        wide,
        data: head(b"MMSD"),
        index: head(b"MMSI"),
        events: head(b"MMES"),
        interned: HashMap::new(),
        next_virtual: layout.virt0 as u64,
        late: vec![],
    };
    let j = meta_json(meta);
    let id = e.plain(&j);
    e.map(METADATA_ID, id);
    for (i, ev) in events.iter().enumerate() {
        let sh = if layout.shapes.is_empty() { 0 } else { layout.shapes[i % layout.shapes.len()] };
        let k = e.kind(&ev.kind, sh.rotate_left(3));
        let id = e.event_id(&ev.label, &ev.args, sh);
        let (k, id) = (e.num(k), e.num(id));
        e.events.extend(k);
        e.events.extend(id);
        e.events.extend(ev.tid.to_le_bytes());
        let (a, b, c) = raw_payload(&ev.payload);
        e.events.extend(a.to_le_bytes());
        e.events.extend(b.to_le_bytes());
        e.events.extend(c.to_le_bytes());
    }
    let late = std::mem::take(&mut e.late);
    for (v, id) in late {
        e.map(v, id);
    }
    Streams { data: e.data, index: e.index, events: e.events }
}

/// Pages in the order of `cuts`, then the rests.
pub fn paginate(streams: &Streams, layout: &Layout) -> Vec<(u8, Vec<u8>)> {
    let src = [&streams.events, &streams.data, &streams.index];
    let mut pos = [0usize; 3];
    let mut pages = Vec::new();
    let mut put = |s: usize, n: usize, pos: &mut [usize; 3]| {
        let n = n.min(src[s].len() - pos[s]);
        if n > 0 {
            pages.push((s as u8, src[s][pos[s]..pos[s] + n].to_vec()));
            pos[s] += n;
        }
    };
    for &(s, n) in &layout.cuts {
        put((s % 3) as usize, n as usize, &mut pos);
    }
    for k in 0..3 {
        let s = (layout.tail as usize + k) % 3;
        while pos[s] < src[s].len() {
            put(s, MAX_PAGE, &mut pos);
        }
    }
    pages
}

pub fn file_bytes(pages: &[(u8, Vec<u8>)], version: u32) -> Vec<u8> {
    let mut out = b"MMPD".to_vec();
    out.extend(version.to_le_bytes());
    for (t, p) in pages {
        out.push(*t);
        out.extend((p.len() as u32).to_le_bytes());
        out.extend_from_slice(p);
    }
    out
}

pub fn encode_file(meta: &Meta, events: &[Ev], layout: &Layout, version: u32) -> Vec<u8> {
    file_bytes(&paginate(&encode_streams(meta, events, layout, version), layout), version)
}

/// Independent reader of the page structure. Err: (offset, why).
pub fn parse_pages(bytes: &[u8]) -> Result<Vec<(u8, std::ops::Range<usize>)>, String> {
    let mut pos = 0;
    let mut out = vec![];
    while pos < bytes.len() {
        if bytes.len() - pos < 5 {
            return Err(format!("torn page head at {pos}"));
        }
        let tag = bytes[pos];
        if tag > 2 {
            return Err(format!("bad tag {tag} at {pos}"));
        }
        let n = u32::from_le_bytes(bytes[pos + 1..pos + 5].try_into().unwrap()) as usize;
        if n == 0 {
            return Err(format!("empty page at {pos}"));
        }
        if bytes.len() - pos - 5 < n {
            return Err(format!("torn page at {pos}: {n} bytes announced, {} present", bytes.len() - pos - 5));
        }
        out.push((tag, pos + 5..pos + 5 + n));
        pos += 5 + n;
    }
    Ok(out)
}

pub fn join_pages(bytes: &[u8], pages: &[(u8, std::ops::Range<usize>)], tag: u8) -> Vec<u8> {
    let mut v = vec![];
    for (t, r) in pages {
        if *t == tag {
            v.extend_from_slice(&bytes[r.clone()]);
        }
    }
    v
}
