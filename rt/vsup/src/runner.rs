//! Native executor of contract harnesses: bounded search and replay.
use crate::nd::*;
use std::io::Write;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;

pub type Entry = (&'static str, fn());

static CASE_SEED: AtomicU64 = AtomicU64::new(0);
static CASE_START_MS: AtomicU64 = AtomicU64::new(0);
static LAST_PANIC: Mutex<String> = Mutex::new(String::new());

fn now_ms() -> u64 { std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_millis() as u64 }

fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), '\t' => o.push_str("\\t"), '\r' => o.push_str("\\r"), c if (c as u32) < 32 => o.push(' '), c => o.push(c) } }
    o
}

enum Outcome { Pass, Skip, Fail(String), Broken(String) }

fn run_case(f: fn()) -> Outcome {
    *LAST_PANIC.lock().unwrap() = String::new();
    crate::time::set_ns(0);
    crate::net::reset();
    crate::sim_rand(None);
    crate::clear_forced();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    match r {
        Ok(()) => Outcome::Pass,
        Err(e) => {
            if e.downcast_ref::<AssumeFailed>().is_some() { return Outcome::Skip; }
            let failed = ST.with(|st| st.borrow().failed.clone());
            match failed {
                Some(id) => Outcome::Fail(id),
                None => {
                    let p = LAST_PANIC.lock().unwrap().clone();
                    if p.contains("/contracts/") || p.contains("/vsup/") { Outcome::Broken(format!("panic in the harness: {}", p)) }
                    else { Outcome::Fail(format!("panic in the code under verification: {}", p)) }
                }
            }
        }
    }
}

fn trace_hex() -> String {
    ST.with(|st| st.borrow().trace.iter().map(|b| b.iter().map(|x| format!("{:02x}", x)).collect::<String>()).collect::<Vec<_>>().join(" "))
}
fn notes() -> String {
    ST.with(|st| st.borrow().note.iter().map(|s| format!("\"{}\"", esc(s))).collect::<Vec<_>>().join(","))
}

pub fn main(entries: &[Entry]) {
    let args: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() { s.to_string() } else if let Some(s) = info.payload().downcast_ref::<String>() { s.clone() } else { String::from("(non-string panic)") };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        *LAST_PANIC.lock().unwrap() = format!("{} at {}", msg, loc);
    }));
    let find = |name: &str| -> fn() { entries.iter().find(|e| e.0 == name).unwrap_or_else(|| { eprintln!("no harness {}", name); std::process::exit(3) }).1 };
    match args.get(1).map(|s| s.as_str()) {
        Some("list") => { for e in entries { println!("{}", e.0); } }
        Some("run") => {
            // run <harness> <seed> <max cases> <max ms> <hang ms>
            let name = args[2].clone();
            let f = find(&name);
            let seed0: u64 = args[3].parse().unwrap();
            let max_cases: u64 = args[4].parse().unwrap();
            let max_ms: u64 = args[5].parse().unwrap();
            let hang_ms: u64 = args[6].parse().unwrap();
            let t0 = now_ms();
            CASE_START_MS.store(t0, Ordering::SeqCst);
            let n2 = name.clone();
            std::thread::spawn(move || loop {
                std::thread::sleep(std::time::Duration::from_millis(100));
                let st = CASE_START_MS.load(Ordering::SeqCst);
                if now_ms().saturating_sub(st) > hang_ms {
                    println!("{{\"harness\":\"{}\",\"result\":\"fail\",\"obligation\":\"a call does not return (no progress for {} ms)\",\"seed\":{},\"trace\":\"\",\"notes\":[]}}", n2, hang_ms, CASE_SEED.load(Ordering::SeqCst));
                    std::io::stdout().flush().unwrap();
                    std::process::exit(1);
                }
            });
            let h = std::thread::Builder::new().stack_size(64 << 20).spawn(move || {
                let mut cases = 0u64; let mut passed = 0u64; let mut skipped = 0u64;
                let mut distinct = std::collections::HashSet::new();
                let mut sample = String::new();
                let mut sample_notes = String::new();
                while cases < max_cases && now_ms() - t0 < max_ms {
                    let seed = seed0.wrapping_mul(0x9E3779B97F4A7C15).wrapping_add(cases.wrapping_mul(0xD1342543DE82EF95));
                    CASE_SEED.store(seed, Ordering::SeqCst);
                    CASE_START_MS.store(now_ms(), Ordering::SeqCst);
                    set_source(Source::Random(seed));
                    match run_case(f) {
                        Outcome::Pass => {
                            passed += 1;
                            use std::hash::{Hash, Hasher};
                            let mut hs = std::collections::hash_map::DefaultHasher::new();
                            ST.with(|st| st.borrow().trace.hash(&mut hs));
                            distinct.insert(hs.finish());
                            if passed == 1 { sample = trace_hex(); sample_notes = notes(); }
                        }
                        Outcome::Skip => skipped += 1,
                        Outcome::Broken(id) => {
                            println!("{{\"harness\":\"{}\",\"result\":\"broken\",\"obligation\":\"{}\",\"seed\":{}}}", name, esc(&id), seed);
                            std::io::stdout().flush().unwrap();
                            std::process::exit(2);
                        }
                        Outcome::Fail(id) => {
                            println!("{{\"harness\":\"{}\",\"result\":\"fail\",\"obligation\":\"{}\",\"seed\":{},\"trace\":\"{}\",\"notes\":[{}]}}", name, esc(&id), seed, trace_hex(), notes());
                            std::io::stdout().flush().unwrap();
                            std::process::exit(1);
                        }
                    }
                    cases += 1;
                }
                let (checks, covers, counts) = ST.with(|st| { let st = st.borrow();
                    (st.checks, st.covers.iter().map(|(k, v)| format!("\"{}\":{}", esc(k), v)).collect::<Vec<_>>().join(","),
                     st.counts.iter().map(|(k, v)| format!("\"{}\":{}", esc(k), v)).collect::<Vec<_>>().join(",")) });
                if sample.len() > 2000 { sample.truncate(2000); }
                if sample_notes.len() > 4000 { sample_notes = String::new(); }
                println!("{{\"harness\":\"{}\",\"result\":\"pass\",\"cases\":{},\"passed\":{},\"skipped\":{},\"distinct\":{},\"checks\":{},\"covers\":{{{}}},\"counts\":{{{}}},\"sample\":\"{}\",\"notes\":[{}]}}", name, cases, passed, skipped, distinct.len(), checks, covers, counts, sample, sample_notes);
                std::io::stdout().flush().unwrap();
                std::process::exit(0);
            }).unwrap();
            let _ = h.join();
        }
        Some("replay") | Some("reseed") => {
            // replay <harness> <trace file: hex words> | reseed <harness> <seed>
            let f = find(&args[2]);
            let by_trace = args[1] == "replay";
            let src = if by_trace {
                let text = std::fs::read_to_string(&args[3]).unwrap();
                let q = text.split_whitespace().map(|w| (0..w.len() / 2).map(|i| u8::from_str_radix(&w[2 * i..2 * i + 2], 16).unwrap()).collect::<Vec<u8>>()).collect();
                Source::Replay(q)
            } else { Source::Random(args[3].parse().unwrap()) };
            let hang_ms: u64 = args.get(4).map(|s| s.parse().unwrap()).unwrap_or(10000);
            let name = args[2].clone();
            std::thread::spawn(move || {
                std::thread::sleep(std::time::Duration::from_millis(hang_ms));
                println!("{{\"harness\":\"{}\",\"result\":\"fail\",\"obligation\":\"a call does not return\",\"trace\":\"\",\"notes\":[]}}", name);
                std::io::stdout().flush().unwrap();
                std::process::exit(1);
            });
            let name = args[2].clone();
            let h = std::thread::Builder::new().stack_size(64 << 20).spawn(move || {
                set_source(src);
                match run_case(f) {
                    Outcome::Pass => { println!("{{\"harness\":\"{}\",\"result\":\"pass\",\"notes\":[{}]}}", name, notes()); std::process::exit(0) }
                    Outcome::Skip => { println!("{{\"harness\":\"{}\",\"result\":\"skip\"}}", name); std::process::exit(0) }
                    Outcome::Broken(id) => { println!("{{\"harness\":\"{}\",\"result\":\"broken\",\"obligation\":\"{}\"}}", name, esc(&id)); std::process::exit(2) }
                    Outcome::Fail(id) => { println!("{{\"harness\":\"{}\",\"result\":\"fail\",\"obligation\":\"{}\",\"trace\":\"{}\",\"notes\":[{}]}}", name, esc(&id), trace_hex(), notes()); std::process::exit(1) }
                }
            }).unwrap();
            let _ = h.join();
        }
        _ => { eprintln!("usage"); std::process::exit(3) }
    }
}
