//! C02: writers on several threads, under schedules chosen by the generator.
#[path = "../../harness/src/driver.rs"]
#[macro_use]
#[allow(dead_code)]
mod driver;
mod c02;

use driver::Tier;
use std::path::PathBuf;

fn tier(s: &str) -> Tier {
    if s == "thorough" {
        Tier::Thorough
    } else {
        Tier::Quick
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    match a.get(1).map(|s| &s[..]) {
        Some("check") => {
            let t = tier(&std::env::var("VERIF_TIER").unwrap_or_default());
            let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1u64);
            let limit: u64 = if t == Tier::Quick { 700 } else { 36000 };
            std::thread::spawn(move || {
                std::thread::sleep(std::time::Duration::from_secs(limit));
                eprintln!("HARNESS-ERROR: time limit");
                unsafe { libc::kill(0, libc::SIGKILL) };
            });
            unsafe { libc::setpgid(0, 0) };
            std::process::exit(driver::check::<c02::P>(t, seed));
        }
        Some("worker") => {
            driver::limit_memory();
            let out = PathBuf::from(std::env::var_os("VH_OUT").unwrap());
            driver::worker::<c02::P>(tier(&a[3]), a[4].parse().unwrap(), &out, a[5] == "journal");
            // Threads of a deadlocked case may still be around.
            std::process::exit(0);
        }
        Some("replay") | Some("replay-inner") => {
            driver::limit_memory();
            std::process::exit(driver::replay::<c02::P>(&PathBuf::from(&a[3])));
        }
        _ => {
            eprintln!("usage: vs check|replay C02 [file]");
            std::process::exit(2)
        }
    }
}
