mod clock;
mod codec;
#[macro_use]
mod driver;
mod hw;
mod io;
mod load;
mod model;
mod props;
mod text;
mod tools;

use driver::{Prop, Tier};
use std::path::PathBuf;

macro_rules! all {
    ($id:expr, $f:ident $args:tt) => {
        all!(@ $id, $f $args,
            c01, c03, c04, c05, c06, c07, c08, c09, c10, c11, c12, c13, c14, c15, c16, c17, c18, c19, c20, c21, c22, c23, c24, c25, c26, c27)
    };
    (@ $id:expr, $f:ident $args:tt, $($m:ident),*) => {
        match $id {
            $( <props::$m::P as Prop>::ID => all!(! $f, props::$m::P, $args), )*
            other => { eprintln!("unknown property {other}"); std::process::exit(2) }
        }
    };
    (! $f:ident, $p:ty, ($($a:expr),*)) => { driver::$f::<$p>($($a),*) };
}

fn tier(s: &str) -> Tier {
    if s == "thorough" {
        Tier::Thorough
    } else {
        Tier::Quick
    }
}

fn child(what: &str) -> i32 {
    match what {
        "c07" => props::c07::child(),
        "c21" => props::c21::child(),
        "c27" => props::c27::child(),
        _ => 2,
    }
}

fn main() {
    if let Some(c) = std::env::var_os("VH_CHILD") {
        std::process::exit(child(c.to_str().unwrap()));
    }
    let a: Vec<String> = std::env::args_os().map(|s| s.to_string_lossy().into_owned()).collect();
    match a.get(1).map(|s| &s[..]) {
        Some("check") => {
            let t = tier(&std::env::var("VERIF_TIER").unwrap_or_default());
            let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1u64);
            // Only time-outs of the harness end here: no answer, no violation.
            let limit: u64 = std::env::var("VH_LIMIT").ok().and_then(|s| s.parse().ok()).unwrap_or(if t == Tier::Quick { 700 } else { 36000 });
            std::thread::spawn(move || {
                std::thread::sleep(std::time::Duration::from_secs(limit));
                eprintln!("HARNESS-ERROR: time limit");
                unsafe { libc::kill(0, libc::SIGKILL) };
            });
            unsafe { libc::setpgid(0, 0) };
            let r = all!(&a[2][..], check(t, seed));
            std::process::exit(r)
        }
        Some("worker") => {
            driver::limit_memory();
            let seed = a[4].parse().unwrap();
            let out = PathBuf::from(std::env::var_os("VH_OUT").unwrap());
            all!(&a[2][..], worker(tier(&a[3]), seed, &out, a[5] == "journal"));
        }
        Some("replay") | Some("replay-inner") => {
            driver::limit_memory();
            let f = PathBuf::from(&a[3]);
            let r = all!(&a[2][..], replay(&f));
            std::process::exit(r)
        }
        _ => {
            eprintln!("usage: vh check|replay ID [file]");
            std::process::exit(2)
        }
    }
}
