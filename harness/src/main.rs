//! Executes test cases (generated from the TLA+ specifications, or at random) against the real crates
//! and records what happened, one JSON event per line, for validation by TLC.
//!
//! usage: harness CASES OUT
mod geo;
mod graphs;
mod json;
mod lexer;
mod mem;
mod paths;
mod table;
mod vecopt;

use json::J;
use std::io::Write;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

#[global_allocator]
static ALLOC: mem::Guard = mem::Guard;

pub struct Out {
    pub case: i64,
    pub buf: String,
}
impl Out {
    pub fn emit(&mut self, mut e: J) {
        e.push("c", self.case);
        e.write(&mut self.buf);
        self.buf.push('\n');
    }
}

/// Runs code under test; a panic is an observation, not an error of the harness.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|e| {
        if let Some(s) = e.downcast_ref::<String>() {
            s.clone()
        } else if let Some(s) = e.downcast_ref::<&str>() {
            s.to_string()
        } else {
            "?".to_string()
        }
    })
}

static SCALE: AtomicU64 = AtomicU64::new(1);
static STARTED: AtomicU64 = AtomicU64::new(0);
static TICK: AtomicU64 = AtomicU64::new(0);

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let cases = std::fs::read_to_string(&args[1]).expect("read cases");
    let mut file = std::io::BufWriter::new(std::fs::File::create(&args[2]).expect("create trace"));
    let limit: u64 = std::env::var("CASE_LIMIT_S")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(60);
    std::panic::set_hook(Box::new(|_| {}));
    // The watchdog: a case that runs longer than the limit ends the run with status 77.
    std::thread::spawn(move || loop {
        std::thread::sleep(std::time::Duration::from_millis(250));
        let t = TICK.fetch_add(1, Relaxed) + 1;
        let s = STARTED.load(Relaxed);
        if s != u64::MAX && t.saturating_sub(s) > limit * 4 * SCALE.load(Relaxed) {
            unsafe { _exit(77) }
        }
    });
    let work = move || {
        for (i, line) in cases.lines().enumerate() {
            if line.is_empty() {
                continue;
            }
            let case = json::parse(line);
            let mut out = Out {
                case: i as i64,
                buf: String::new(),
            };
            // Big cases have more time: a slow machine is no endless loop.
            SCALE.store(if case.has("shape") || line.len() > 20000 { 3 } else { 1 }, Relaxed);
            STARTED.store(TICK.load(Relaxed), Relaxed);
            let t0 = std::time::Instant::now();
            let r = guarded(|| match case.get("k").str() {
                "vecopt" => vecopt::run(&case, &mut out),
                "ramp" => table::ramp(&case, &mut out),
                "builder" => table::builder(&case, &mut out),
                "pq" => table::pq(&case, &mut out),
                "graph" => graphs::run(&case, &mut out),
                "search" => paths::search(&case, &mut out),
                "matrix" => paths::matrix(&case, &mut out),
                "vis" => geo::vis(&case, &mut out),
                "points" => geo::points(&case, &mut out),
                "inner" => geo::inner(&case, &mut out),
                "spline" => geo::spline(&case, &mut out),
                "solve" => geo::solve(&case, &mut out),
                "planar" => geo::planar(&case, &mut out),
                "wedge" => geo::wedge(&case, &mut out),
                "lex" => lexer::run(&case, &mut out),
                k => panic!("harness: unknown kind {}", k),
            });
            if let Err(m) = r {
                if m.starts_with("harness:") {
                    panic!("{}", m);
                }
                // A panic outside the guarded calls still comes from the code under test.
                out.emit(obj! {"ev": "crash", "what": m});
            }
            if std::env::var("CASE_TIMES").is_ok() && t0.elapsed().as_millis() > 500 {
                eprintln!("case {} {:?} {}", i, t0.elapsed(), &line[..line.len().min(150)]);
            }
            file.write_all(out.buf.as_bytes()).unwrap();
            file.flush().unwrap();
        }
        STARTED.store(u64::MAX, Relaxed);
    };
    // A big stack, so that deep recursion of the code under test is judged on its result.
    let r = std::thread::Builder::new()
        .stack_size(256 << 20)
        .spawn(work)
        .unwrap()
        .join();
    if let Err(e) = r {
        let m = e.downcast_ref::<String>().cloned().unwrap_or_default();
        eprintln!("harness failed: {}", m);
        std::process::exit(3);
    }
}

extern "C" {
    fn _exit(code: i32) -> !;
}
