//! C27: where profiles are stored and found.
use crate::driver::*;
use crate::tools;
use analyzeme::ProfilingData;
use measureme::{EventId, Profiler};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::ffi::{OsStr, OsString};
use std::os::unix::ffi::{OsStrExt, OsStringExt};
use std::path::{Path, PathBuf};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Before {
    Nothing,
    /// a longer or shorter file is in the place
    File(u32),
    /// an earlier profile with this number of events
    Profile(u16),
    /// a link to another file
    Link,
    /// a directory is in the place
    Directory,
    /// one of the directories is a file
    Blocked,
    /// the directories exist
    Dirs,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Place {
    pub dirs: Vec<Vec<u8>>,
    pub stem: Vec<u8>,
    pub before: Before,
    pub events: u16,
    pub text: u16,
    /// how it is looked for
    pub via: u8,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub places: Vec<Place>,
    /// in a process of its own, which has the directory as its working directory
    pub relative: bool,
    pub neighbours: bool,
    /// what is called exactly like the prefixes (0: nothing, 1: a text, 2: another profile, 3: a directory)
    pub exact: u8,
}

/// The file for a prefix: an extension is replaced.
fn file_name(stem: &[u8]) -> Vec<u8> {
    let cut = stem.iter().rposition(|b| *b == b'.').filter(|i| *i > 0).unwrap_or(stem.len());
    [&stem[..cut], b".mm_profdata"].concat()
}

fn label(k: usize, i: usize, text: u16) -> String {
    format!("{}of {k} number {i}", "x".repeat(text as usize))
}

fn record(p: &Profiler, k: usize, n: usize, text: u16) {
    let kind = p.alloc_string("GenericActivity");
    for i in 0..n {
        let id = EventId::from_label(p.alloc_string(&label(k, i, text)[..]));
        p.record_integer_event(kind, id, k as u32, i as u64);
    }
}

fn verify(d: &ProfilingData, k: usize, n: usize, text: u16, what: &str) -> Result<(), String> {
    ensure_eq!(d.num_events(), n, "{what}: number of events");
    for (i, e) in d.iter_full().enumerate() {
        ensure!(e.label == label(k, i, text) && e.thread_id == k as u32 && e.payload.integer() == Some(i as u64), "{what}: event {i} is {e:?}");
    }
    Ok(())
}

/// Records at a path relative to the working directory.
pub fn child() -> i32 {
    let a: Vec<OsString> = std::env::args_os().collect();
    let num = |i: usize| a[i].to_str().unwrap().parse::<usize>().unwrap();
    match Profiler::new(Path::new(&a[1])) {
        Ok(p) => {
            record(&p, num(2), num(3), num(4) as u16);
            0
        }
        Err(_) => 7,
    }
}

pub struct P;
impl Prop for P {
    type Case = Case;
    const ID: &'static str = "C27";
    const RULE: &'static str = "One to four profilers at generated prefixes (any bytes, dots, hidden names, long names, nested missing directories; absolute in this process, or relative in one of its own), recording in turn, over nothing, other files, longer earlier profiles, links, directories or files in the way; each profile must be in its file only, load by prefix and by file name, and be found by the built viewer; other files must be unchanged. Non-trivial: something was in the place before, directories were missing, or there are several profiles.";
    const ASSUMPTIONS: &'static [&'static str] = &["the prefixes of profilers open at once name different files", "the last component of a prefix does not start with two dots"];
    fn cases(t: Tier) -> u32 {
        t.pick(30_000, 1_200_000)
    }
    fn strategy(_t: Tier) -> BoxedStrategy<Case> {
        let bytes = |r: std::ops::Range<usize>| {
            proptest::collection::vec(prop_oneof![3 => any::<u8>(), 1 => Just(b'.'), 1 => Just(b' '), 2 => b'a'..=b'z'], r)
                .prop_map(|v| v.into_iter().map(|b| if b == 0 || b == b'/' { b'_' } else { b }).collect::<Vec<u8>>())
                .boxed()
        };
        let name = prop_oneof![
            4 => "[a-zA-Z0-9_-]{1,12}".prop_map(String::into_bytes),
            2 => "[a-z]{1,4}-[0-9]{4}\\.(rustc_profile|mm_profdata|events|[a-z0-9]{0,3})".prop_map(String::into_bytes),
            1 => "\\.[a-z]{1,4}(\\.[a-z]{1,3})?".prop_map(String::into_bytes),
            1 => "[a-zé中 .-]{1,9}".prop_map(String::into_bytes),
            2 => bytes(1..9),
            1 => (180usize..240).prop_map(|n| vec![b'n'; n]),
        ]
        .prop_map(|v| if v.iter().all(|b| *b == b'.') { b"dot".to_vec() } else { v })
        // ("..x" is beyond PathBuf::with_extension of the standard library)
        .prop_map(|v| if v.starts_with(b"..") { [b"d", &v[..]].concat() } else { v });
        let place = (
            prop_oneof![4 => Just(vec![]).boxed(), 3 => proptest::collection::vec(name.clone(), 1..4).boxed()],
            name,
            prop_oneof![
                4 => Just(Before::Nothing),
                2 => prop_oneof![0u32..100, 0u32..1_000_000].prop_map(Before::File),
                2 => prop_oneof![0u16..10, 0u16..9000].prop_map(Before::Profile),
                1 => Just(Before::Link),
                1 => Just(Before::Directory),
                1 => Just(Before::Blocked),
                1 => Just(Before::Dirs),
            ],
            prop_oneof![8 => 0u16..6, 2 => 0u16..300, 1 => 0u16..9000],
            prop_oneof![6 => 0u16..5, 1 => 100u16..140, 1 => 0u16..3000],
            any::<u8>(),
        )
            .prop_map(|(dirs, stem, before, events, text, via)| Place { dirs, stem, before, events: if text > 200 { events % 40 } else { events }, text, via });
        (
            prop_oneof![2 => proptest::collection::vec(place.clone(), 1..=1), 2 => proptest::collection::vec(place, 1..=4)],
            proptest::bool::weighted(0.15),
            any::<bool>(),
            0u8..6,
        )
            .prop_map(|(places, relative, neighbours, exact)| Case { places, relative, neighbours, exact })
            .boxed()
    }
    fn check(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
        let dir = ctx.dir();
        // one more level, so that a file next to the directory would be seen as well
        let d = &dir.0.join("work");
        std::fs::create_dir(d).expect("harness: dir");
        struct Target<'a> {
            place: &'a Place,
            prefix: PathBuf,
            file: PathBuf,
            fails: bool,
        }
        let mut targets: Vec<Target> = vec![];
        for (k, place) in case.places.iter().enumerate() {
            // (each in a directory of its own, or with a name of its own)
            let mut parent = d.clone();
            if !place.dirs.is_empty() {
                parent.push(format!("d{k}"));
            }
            for c in &place.dirs {
                parent.push(OsStr::from_bytes(c));
            }
            let stem = if place.dirs.is_empty() { [format!("{k}").as_bytes(), &place.stem].concat() } else { place.stem.clone() };
            let prefix = parent.join(OsStr::from_bytes(&stem));
            let name = file_name(&stem);
            if name.len() > 255 {
                return Ok(());
            }
            let file = parent.join(OsStr::from_bytes(&name));
            let mkdir = || std::fs::create_dir_all(&parent).expect("harness: dir");
            let mut fails = false;
            match &place.before {
                Before::Nothing => ctx.class_if(!place.dirs.is_empty(), "missing directories"),
                Before::File(n) => {
                    ctx.class("over another file");
                    mkdir();
                    tools::write(&file, &b"MMPDx\0".repeat(*n as usize / 6 + 1));
                }
                Before::Profile(n) => {
                    ctx.class("over an earlier profile");
                    let p = Profiler::new(&prefix).map_err(|e| format!("profiler at {prefix:?}: {e}"))?;
                    record(&p, 99, *n as usize, 0);
                }
                Before::Link => {
                    ctx.class("link");
                    mkdir();
                    let other = d.join(format!("linked{k}"));
                    tools::write(&other, &[0x4D; 5000]);
                    std::os::unix::fs::symlink(&other, &file).expect("harness: link");
                }
                Before::Directory => {
                    ctx.class("a directory is in the way");
                    std::fs::create_dir_all(&file).expect("harness: dir");
                    fails = true;
                }
                Before::Blocked => {
                    if place.dirs.is_empty() {
                        continue;
                    }
                    ctx.class("a file is in the way");
                    let up = parent.parent().unwrap();
                    std::fs::create_dir_all(up).expect("harness: dir");
                    tools::write(&parent, b"not a directory");
                    fails = true;
                }
                Before::Dirs => mkdir(),
            }
            targets.push(Target { place, prefix, file, fails });
        }
        if case.neighbours {
            for t in &targets {
                if t.file.parent().unwrap().is_dir() {
                    for (n, b) in [("zz.mm_profdata", &b"other"[..]), ("zz.events", b""), ("zz", b"x")] {
                        tools::write(&t.file.with_file_name(n), b);
                    }
                }
            }
        }
        for t in &targets {
            if case.exact % 6 == 0 || case.exact % 6 > 3 || t.prefix == t.file || !t.file.parent().unwrap().is_dir() || t.prefix.exists() {
                continue;
            }
            ctx.class("something called exactly like the prefix");
            match case.exact {
                1 => tools::write(&t.prefix, b"text"),
                2 => {
                    let other = dir.0.join("other.mm_profdata");
                    record(&Profiler::new(&other).map_err(|e| format!("profiler at {other:?}: {e}"))?, 98, 3, 7);
                    std::fs::rename(other, &t.prefix).expect("harness: rename");
                }
                _ => std::fs::create_dir(&t.prefix).expect("harness: dir"),
            }
        }
        let before = tools::snapshot(&dir.0);
        if case.relative {
            ctx.class("relative path");
            for (k, t) in targets.iter().enumerate() {
                let st = std::process::Command::new(std::env::current_exe().expect("harness: exe"))
                    .arg(t.prefix.strip_prefix(d).unwrap())
                    .args([k.to_string(), t.place.events.to_string(), t.place.text.to_string()])
                    .env("VH_CHILD", "c27")
                    .current_dir(d)
                    .stderr(std::process::Stdio::null())
                    .status()
                    .expect("harness: child");
                let want = if t.fails { 7 } else { 0 };
                ensure_eq!(st.code(), Some(want), "recording at {:?} with {:?} in the place: exit status {st:?}", t.prefix, t.place.before);
            }
        } else {
            let mut open = vec![];
            for t in &targets {
                match (catch(|| Profiler::new(&t.prefix)), t.fails) {
                    (Err(m), _) => return Err(format!("profiler at {:?} with {:?} in the place: panics: {m}", t.prefix, t.place.before)),
                    (Ok(Ok(_)), true) => return Err(format!("profiler at {:?} with {:?} in the place: no error", t.prefix, t.place.before)),
                    (Ok(Err(e)), false) => return Err(format!("profiler at {:?} with {:?} in the place: {e}", t.prefix, t.place.before)),
                    (Ok(Ok(p)), false) => open.push(Some(p)),
                    (Ok(Err(_)), true) => open.push(None),
                }
            }
            // in turn
            let kinds: Vec<_> = open.iter().map(|p| p.as_ref().map(|p| p.alloc_string("GenericActivity"))).collect();
            let most = targets.iter().map(|t| t.place.events).max().unwrap_or(0) as usize;
            for i in 0..most {
                for (k, t) in targets.iter().enumerate() {
                    if let (Some(p), true) = (&open[k], i < t.place.events as usize) {
                        let id = EventId::from_label(p.alloc_string(&label(k, i, t.place.text)[..]));
                        p.record_integer_event(kinds[k].unwrap(), id, k as u32, i as u64);
                    }
                }
            }
        }
        let after = tools::snapshot(&dir.0);
        let rel = |p: &Path| p.strip_prefix(&dir.0).unwrap().to_path_buf();
        let mut own: Vec<PathBuf> = targets.iter().filter(|t| !t.fails).map(|t| rel(&t.file)).collect();
        own.extend(targets.iter().enumerate().filter(|(_, t)| matches!(t.place.before, Before::Link)).map(|(_, t)| rel(&std::fs::read_link(&t.file).unwrap_or(t.file.clone()))));
        for (p, b) in &before {
            let a = after.get(p);
            ensure!(a.is_some(), "{p:?} has been removed");
            ensure!(own.contains(p) || a == Some(b), "{p:?} has been changed");
        }
        for p in after.keys().filter(|p| !before.contains_key(*p)) {
            let parent = targets.iter().any(|t| rel(&t.file).starts_with(p));
            ensure!(own.contains(p) || parent, "unexpected {p:?}; the profiles are {:?}", own);
        }
        for (k, t) in targets.iter().enumerate() {
            if t.fails {
                continue;
            }
            let n = t.place.events as usize;
            let load = |p: &Path| ProfilingData::new(p).map_err(|e| format!("loading {p:?}: {e}"));
            ensure!(t.file.is_file(), "no file {:?} for the prefix {:?}", t.file, t.prefix);
            let bytes = std::fs::read(&t.file).expect("harness: read");
            let d0 = ProfilingData::from_paged_buffer(bytes, None).map_err(|e| format!("profile of prefix {:?}: {e}", t.prefix))?;
            verify(&d0, k, n, t.place.text, "profile read from the file")?;
            verify(&load(&t.prefix)?, k, n, t.place.text, "profile loaded by its prefix")?;
            verify(&load(&t.file)?, k, n, t.place.text, "profile loaded by its file name")?;
            if t.place.via % 8 == 0 && n < 400 {
                ctx.class("viewer");
                let path = if t.place.via & 8 == 0 { &t.prefix } else { &t.file };
                let path = path.strip_prefix(d).unwrap().as_os_str().as_bytes().to_vec();
                let arg = OsString::from_vec([b"./", &path[..]].concat());
                let o = tools::run("mmview", d, &[arg.clone()]).success(&format!("mmview {arg:?}"))?;
                for i in [0, n.wrapping_sub(1)] {
                    ensure!(n == 0 || o.stdout.contains(&label(k, i, t.place.text)[..]), "mmview {arg:?} does not show event {i} of the profile");
                }
            }
        }
        ctx.count("profiles", targets.len() as u64);
        ctx.nontrivial_if(targets.len() > 1 || targets.iter().any(|t| !matches!(t.place.before, Before::Nothing | Before::Dirs) || !t.place.dirs.is_empty()));
        Ok(())
    }
}
