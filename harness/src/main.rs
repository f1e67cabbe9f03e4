//! Executes lists of API operations ("histories") against the real bellframe crate and records the
//! observable result of every operation.  This program has no opinion about what is right: the
//! results are judged by the TLA+ specification.
//!
//!   vh exec IN.ndjson OUT.ndjson [--start N] [--journal FILE]
//!
//! Each input line is a JSON array of operations; each output line is the same array where every
//! operation has gained a result field "r".  A panic is a result ({"t":"panic"}).  If one operation
//! takes too long the process leaves with code 3, and it may die of a signal: the driver then runs
//! that history again with a journal (one line per finished operation) to find the operation, and
//! gives it the result {"t":"hang"} or {"t":"abort"}.
mod exec;
#[cfg(feature = "cc")]
mod net;

use serde_json::{json, Value};
use std::io::{BufRead, BufWriter, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};

static STEP: AtomicU64 = AtomicU64::new(0);

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() < 4 || args[1] != "exec" {
        eprintln!("usage: vh exec IN OUT [--start N] [--journal FILE]");
        std::process::exit(2);
    }
    let opt = |name: &str| args.iter().position(|a| a == name).map(|i| args[i + 1].clone());
    let start: usize = opt("--start").map_or(0, |v| v.parse().unwrap());
    let mut journal = opt("--journal").map(|p| std::fs::File::create(p).unwrap());
    let input = std::io::BufReader::new(std::fs::File::open(&args[2]).unwrap());
    let mut out = BufWriter::new(
        std::fs::OpenOptions::new()
            .create(true)
            .append(true)
            .open(&args[3])
            .unwrap(),
    );
    #[cfg(feature = "cc")]
    if catch_unwind(net::init).is_err() {
        eprintln!("no environment for the Central Council's library");
        std::process::exit(4);
    }
    std::panic::set_hook(Box::new(|_| ()));
    let limit: u64 = std::env::var("VH_HANG_S")
        .ok()
        .and_then(|v| v.parse().ok())
        .unwrap_or(20);
    std::thread::spawn(move || {
        let mut last = (0, std::time::Instant::now());
        loop {
            std::thread::sleep(std::time::Duration::from_millis(200));
            let s = STEP.load(Ordering::SeqCst);
            if s != last.0 {
                last = (s, std::time::Instant::now());
            } else if last.1.elapsed().as_secs() >= limit {
                #[cfg(feature = "cc")]
                net::finish();
                std::process::exit(3);
            }
        }
    });
    let worker = std::thread::Builder::new()
        .stack_size(64 << 20)
        .spawn(move || {
            for (idx, line) in input.lines().enumerate() {
                let line = line.unwrap();
                if idx < start || line.is_empty() {
                    continue;
                }
                let mut evs: Vec<Value> = serde_json::from_str(&line).unwrap();
                let mut st = exec::State::new();
                for ev in evs.iter_mut() {
                    STEP.fetch_add(1, Ordering::SeqCst);
                    let r = catch_unwind(AssertUnwindSafe(|| exec::exec(&mut st, ev)));
                    let r = r.unwrap_or_else(|e| {
                        let m = e
                            .downcast_ref::<String>()
                            .cloned()
                            .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                            .unwrap_or_default();
                        // A malformed operation is a bug of the generator, not of bellframe
                        if m.starts_with("VHARNESS") || ev["op"] == "cset" || ev["op"] == "csrv" {
                            eprintln!("{} in {}", m, ev);
                            std::process::exit(4);
                        }
                        json!({"t": "panic"})
                    });
                    ev["r"] = r;
                    if let Some(j) = journal.as_mut() {
                        j.write_all(format!("{}\n", ev).as_bytes()).unwrap();
                    }
                }
                serde_json::to_writer(&mut out, &Value::Array(evs)).unwrap();
                out.write_all(b"\n").unwrap();
                out.flush().unwrap();
            }
        })
        .unwrap();
    let res = worker.join();
    #[cfg(feature = "cc")]
    net::finish();
    if res.is_err() {
        std::process::exit(5);
    }
}
