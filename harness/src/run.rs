//! Executes scripts of operations, one world per trace.
use std::fs::OpenOptions;
use std::io::{BufRead, BufReader, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, SystemTime, UNIX_EPOCH};

use serde_json::{json, Value};

pub trait World {
    fn exec(&mut self, op: &Value) -> Vec<String>;
}

static STARTED: AtomicU64 = AtomicU64::new(0);
static PANIC: Mutex<String> = Mutex::new(String::new());

fn now() -> u64 { SystemTime::now().duration_since(UNIX_EPOCH).unwrap().as_millis() as u64 }

fn run(world: fn(&str) -> Box<dyn World>, script: &str, out: &str, first: usize) {
    let file = BufReader::new(std::fs::File::open(script).expect("script"));
    let mut out = OpenOptions::new().create(true).append(true).open(out).expect("out");
    for (t, line) in file.lines().enumerate() {
        if t < first {
            continue;
        }
        let tr: Value = serde_json::from_str(&line.expect("line")).expect("json");
        let mut w = world(tr["w"].as_str().unwrap());
        let mut buf = String::new();
        for (i, op) in tr["ops"].as_array().unwrap().iter().enumerate() {
            if op["risky"].as_bool() == Some(true) {
                // the operation may take the process down: keep what we have
                out.write_all(buf.as_bytes()).unwrap();
                out.flush().unwrap();
                buf.clear();
            }
            STARTED.store(now(), Ordering::SeqCst);
            let res = catch_unwind(AssertUnwindSafe(|| w.exec(op)));
            STARTED.store(0, Ordering::SeqCst);
            let line = match res {
                Ok(o) => json!({"t": t, "i": i, "o": o}),
                Err(e) if e.is::<crate::util::NoObj>() => json!({"t": t, "i": i, "o": ["noobj"]}),
                Err(_) => {
                    let m = PANIC.lock().unwrap().clone();
                    json!({"t": t, "i": i, "o": ["panic"], "m": m})
                }
            };
            buf.push_str(&line.to_string());
            buf.push('\n');
        }
        out.write_all(buf.as_bytes()).unwrap();
    }
    out.flush().unwrap();
}

pub fn main(world: fn(&str) -> Box<dyn World>) {
    let args = std::env::args().collect::<Vec<_>>();
    if args.get(1).map(|s| s.as_str()) == Some("--op") {
        let op: Value = serde_json::from_str(&args[3]).unwrap();
        println!("{}", json!(world(&args[2]).exec(&op)));
        return;
    }
    let first = args.get(3).map(|s| s.parse().unwrap()).unwrap_or(0usize);
    std::panic::set_hook(Box::new(|info| {
        let mut m = info.to_string();
        m.truncate(m.char_indices().nth(300).map(|(i, _)| i).unwrap_or(m.len()));
        *PANIC.lock().unwrap() = m;
    }));
    let limit = std::env::var("OP_LIMIT_MS").ok().and_then(|s| s.parse().ok()).unwrap_or(60_000u64);
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(200));
        let s = STARTED.load(Ordering::SeqCst);
        if s != 0 && now().saturating_sub(s) > limit {
            std::process::exit(97);
        }
    });
    let (script, out) = (args[1].clone(), args[2].clone());
    // A large stack: deep recursion of the code under test is not a finding
    std::thread::Builder::new()
        .stack_size(256 << 20)
        .spawn(move || run(world, &script, &out, first))
        .unwrap()
        .join()
        .unwrap();
}
