//! Runtime monitors for pdf-writer. Usage: harness <property> [--replay FILE]
//! Environment: VERIF_SEED, VERIF_TIER (quick|thorough), VERIF_ROOT.

#![allow(dead_code)]

mod checks;
mod mon;
mod pdf;
mod dict;
mod rng;
mod val;

#[global_allocator]
static ALLOC: checks::cost::Counting = checks::cost::Counting;

use mon::Ctx;
use std::io::Write;
use std::time::{Duration, Instant};

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let id = args.get(1).cloned().unwrap_or_default();
    if id == "digests" { std::process::exit(checks::layout::digests(&args[2..])); }
    if id == "firsts" { std::process::exit(checks::conc::firsts(&args[2..])); }
    if id == "platform" { std::process::exit(checks::platform::command(&args[2..])); }
    let root = std::env::var("VERIF_ROOT").unwrap_or_else(|_| ".".into());
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let thorough = std::env::var("VERIF_TIER").is_ok_and(|t| t == "thorough");
    let Some(f) = checks::find(&id) else {
        println!("unknown property {id:?}; known: {}", checks::ALL.iter().map(|c| c.0).collect::<Vec<_>>().join(" "));
        std::process::exit(2);
    };
    let mut only = None;
    let mut seed = seed;
    if args.get(2).is_some_and(|a| a == "--replay") {
        let txt = std::fs::read_to_string(&args[3]).expect("HARNESS: replay file");
        let l: Vec<&str> = txt.lines().collect();
        seed = l[1].parse().expect("HARNESS: seed");
        only = Some((l[2].to_string(), l[3].parse().expect("HARNESS: case")));
    }
    let direct = std::env::var("HARNESS_DIRECT").is_ok();
    let child = std::env::var("HARNESS_SLOTS").ok();
    if direct || child.is_some() || only.is_some() {
        mon::install_hook();
        let threads = if direct || only.is_some() { 1 } else {
            std::thread::available_parallelism().map_or(4, |n| n.get()).min(8)
        };
        let slots = child.map(|p| std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(false).open(p).expect("HARNESS: slots"));
        let run = move || {
            let ctx = Ctx::new(&id, thorough, seed, only, threads, slots);
            f(&ctx);
            if std::env::var("HARNESS_NO_EVIDENCE").is_ok() {
                for v in ctx.violations.lock().unwrap().iter() { println!("MISMATCH {} {}: {}", v.stage, v.case, v.msg); }
                for e in ctx.errors.lock().unwrap().iter() { println!("ERROR {e}"); }
                println!("OBSERVED {}", ctx.evidence_json().replace('\n', " "));
                if ctx.violations.lock().unwrap().is_empty() { 0 } else { 1 }
            } else { ctx.finish(&root) }
        };
        let code = if cfg!(miri) { run() } else {
            std::thread::Builder::new().stack_size(1 << 30).spawn(run).unwrap().join().unwrap_or(2)
        };
        let _ = std::io::stdout().flush();
        std::process::exit(code);
    }
    std::process::exit(supervise(&id, &root, seed, thorough));
}

/// Runs the monitor in a child process, so that an abort, a stack overflow or a hang of the code
/// under test is itself observed.
fn supervise(id: &str, root: &str, seed: u64, thorough: bool) -> i32 {
    let dir = std::env::temp_dir().join(format!("harness-{}-{id}", std::process::id()));
    std::fs::create_dir_all(&dir).expect("HARNESS: temp dir");
    let slots = dir.join("slots");
    let exe = std::env::current_exe().expect("HARNESS: exe");
    let mut child = std::process::Command::new(&exe)
        .args([id])
        .env("HARNESS_SLOTS", &slots)
        .spawn()
        .expect("HARNESS: spawn");
    let t0 = Instant::now();
    let limit = Duration::from_secs(850);
    // C28 builds inside of its cases, and its subprocesses have limits of their own.
    let stuck_after = Duration::from_secs(if id == "C28" { 700 } else if thorough { 300 } else { 200 });
    let mut last: Vec<(String, Instant)> = vec![];
    let mut verdict: Option<(String, Vec<String>)> = None;
    let status = loop {
        if let Some(s) = child.try_wait().expect("HARNESS: wait") {
            break Some(s);
        }
        std::thread::sleep(Duration::from_millis(if t0.elapsed().as_secs() < 5 { 20 } else { 200 }));
        let cur = read_slots(&slots);
        last.resize(cur.len(), (String::new(), Instant::now()));
        let mut stuck = vec![];
        for (i, c) in cur.iter().enumerate() {
            if last[i].0 != *c {
                last[i] = (c.clone(), Instant::now());
            } else if c != "idle" && !c.is_empty() && last[i].1.elapsed() > if ["asan ", "tsan ", "miri"].iter().any(|k| c.starts_with(k)) { stuck_after * 2 } else { stuck_after } {
                stuck.push(c.clone());
            }
        }
        if !stuck.is_empty() {
            let _ = child.kill();
            let _ = child.wait();
            verdict = Some(("a call never returned".into(), stuck));
            break None;
        }
        if t0.elapsed() > limit {
            let _ = child.kill();
            let _ = child.wait();
            println!("ERROR {id}: time limit of the check itself");
            let _ = std::fs::remove_dir_all(&dir);
            return 2;
        }
    };
    if let Some(s) = status {
        use std::os::unix::process::ExitStatusExt;
        if let Some(sig) = s.signal() {
            if matches!(sig, 4 | 6 | 7 | 8 | 11) {
                verdict = Some((format!("the process died with signal {sig}"), read_slots(&slots).into_iter().filter(|s| s != "idle" && !s.is_empty()).collect()));
            } else {
                println!("ERROR {id}: child killed by signal {sig}");
                let _ = std::fs::remove_dir_all(&dir);
                return 2;
            }
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
    let Some((what, cases)) = verdict else {
        return status.and_then(|s| s.code()).unwrap_or(2);
    };
    let ctx = Ctx::new(id, thorough, seed, None, 1, None);
    ctx.rule("run ended abnormally");
    for c in cases {
        let (stage, n) = c.rsplit_once(' ').unwrap_or((&c, "0"));
        ctx.violation(stage, n.parse().unwrap_or(0), what.clone());
    }
    if ctx.violations.lock().unwrap().is_empty() {
        ctx.violation("unknown", 0, what);
    }
    ctx.finish(root)
}

fn read_slots(p: &std::path::Path) -> Vec<String> {
    let b = std::fs::read(p).unwrap_or_default();
    b.chunks(64).map(|c| String::from_utf8_lossy(c).trim().to_string()).collect()
}
