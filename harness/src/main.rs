//! Drives the real haproxy-spop / haproxy-spoa crates through test cases read from stdin
//! (one JSON value per line) and writes one JSON record of what happened per line to stdout.
//! It judges nothing: the TLA+ specifications under /verif/spec do.
mod acker;
mod api;
mod agent;
mod conn;
mod dispatch;
mod hdrs;
mod held;
mod io;
mod jsn;
mod reasm;
mod wake;
mod wire;

use serde_json::{json, Value};
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};

#[global_allocator]
static ALLOC: held::Counting = held::Counting;
static CASES: AtomicU64 = AtomicU64::new(0);
/// How long a case may take; one that has a lot to do says so.
static HANG_SECS: AtomicU64 = AtomicU64::new(30);

fn paused() -> tokio::runtime::Runtime {
    tokio::runtime::Builder::new_current_thread()
        .enable_time()
        .start_paused(true)
        .build()
        .unwrap()
}

fn run_case(mode: &str, case: &Value) -> Value {
    match mode {
        "wire" => paused().block_on(wire::run(case)),
        "conn" => paused().block_on(conn::run(case)),
        "hdrs" => hdrs::run(case),
        "api" => paused().block_on(api::run(case)),
        "acker" => acker::run(case),
        "reasm" => reasm::run(case),
        "dispatch" => dispatch::run(case),
        "held" => held::run(case),
        "agent" => agent::run(case),
        m => panic!("unknown mode {m}"),
    }
}

fn main() {
    let mode = std::env::args().nth(1).expect("mode");
    std::panic::set_hook(Box::new(|_| {}));
    // A case that does not come back in real time ends the process: exit code 77 means "hang".
    std::thread::spawn(|| {
        let mut last = (0, 0);
        loop {
            std::thread::sleep(std::time::Duration::from_secs(1));
            let now = CASES.load(Ordering::SeqCst);
            last = if now == last.0 { (now, last.1 + 1) } else { (now, 0) };
            if last.1 > HANG_SECS.load(Ordering::SeqCst) {
                std::process::exit(77);
            }
        }
    });
    let stdin = std::io::stdin();
    let mut out = std::io::stdout().lock();
    for line in stdin.lock().lines() {
        let line = line.expect("stdin");
        let case: Value = serde_json::from_str(&line).expect("json");
        HANG_SECS.store(case["secs"].as_u64().unwrap_or(30), Ordering::SeqCst);
        let rec = catch_unwind(AssertUnwindSafe(|| run_case(&mode, &case))).unwrap_or_else(|p| {
            let msg = p
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_default();
            json!({"op": "panic", "msg": msg, "case": case})
        });
        CASES.fetch_add(1, Ordering::SeqCst);
        serde_json::to_writer(&mut out, &rec).unwrap();
        out.write_all(b"\n").unwrap();
        out.flush().unwrap();
    }
}
