//! The monitor: runs cases (in parallel, deterministically seeded), records what was observed,
//! turns oracle mismatches and unexpected panics into violations and writes the evidence file.

use crate::rng::Rng;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub type R<T> = Result<T, String>;

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "non-string panic".into()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{msg} @ {loc}"));
    }));
}

/// Run `f`, turning a panic into Err(message @ location).
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(LAST_PANIC.with(|p| p.borrow().clone())),
    }
}

pub fn hash<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut h = Fnv(0xcbf29ce484222325);
    t.hash(&mut h);
    h.finish()
}
struct Fnv(u64);
impl Hasher for Fnv {
    fn finish(&self) -> u64 {
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z ^ (z >> 29)
    }
    fn write(&mut self, b: &[u8]) {
        for &x in b {
            self.0 = (self.0 ^ x as u64).wrapping_mul(0x100000001b3);
        }
    }
}

#[derive(Default)]
pub struct Obs {
    pub evals: u64,
    nontrivial: HashSet<u64>,
    counters: BTreeMap<String, u64>,
    maxima: BTreeMap<String, u64>,
    sets: BTreeMap<String, HashSet<u64>>,
    samples: Vec<String>,
}

impl Obs {
    /// One judged case; `sig` identifies it, `nontrivial` says whether it counts by the rule.
    pub fn eval(&mut self, sig: u64, nontrivial: bool) {
        self.evals += 1;
        if nontrivial {
            self.nontrivial.insert(sig);
        }
    }
    pub fn count(&mut self, k: &str, n: u64) {
        if let Some(c) = self.counters.get_mut(k) {
            *c += n;
        } else {
            self.counters.insert(k.to_string(), n);
        }
    }
    pub fn max(&mut self, k: &str, n: u64) {
        let m = self.maxima.entry(k.to_string()).or_default();
        *m = (*m).max(n);
    }
    pub fn seen(&mut self, set: &str, h: u64) {
        if !self.sets.contains_key(set) {
            self.sets.insert(set.to_string(), HashSet::new());
        }
        self.sets.get_mut(set).unwrap().insert(h);
    }
    pub fn sample(&mut self, s: impl FnOnce() -> String) {
        if self.samples.len() < 2 {
            let mut s = s();
            if s.len() > 400 {
                let mut e = 400;
                while !s.is_char_boundary(e) {
                    e -= 1;
                }
                s.truncate(e);
                s.push_str("...");
            }
            self.samples.push(s);
        }
    }
    fn merge(&mut self, o: Obs) {
        self.evals += o.evals;
        self.nontrivial.extend(o.nontrivial);
        for (k, v) in o.counters {
            *self.counters.entry(k).or_default() += v;
        }
        for (k, v) in o.maxima {
            let m = self.maxima.entry(k).or_default();
            *m = (*m).max(v);
        }
        for (k, v) in o.sets {
            self.sets.entry(k).or_default().extend(v);
        }
        for s in o.samples {
            if self.samples.len() < 8 {
                self.samples.push(s);
            }
        }
    }
}

pub struct Violation {
    pub stage: String,
    pub case: u64,
    pub msg: String,
}

pub struct Ctx {
    pub id: String,
    pub thorough: bool,
    pub seed: u64,
    /// Which sanitizer build this is ("" for the plain one).
    pub sub: String,
    only: Option<(String, u64)>,
    all: Mutex<Obs>,
    pub violations: Mutex<Vec<Violation>>,
    pub errors: Mutex<Vec<String>>,
    start: Instant,
    threads: usize,
    slots: Option<std::fs::File>,
    budget: Duration,
    alive: AtomicU64,
    rule: Mutex<String>,
    assumptions: Mutex<Vec<String>>,
    extra: Mutex<BTreeMap<String, String>>,
    stages_run: Mutex<Vec<String>>,
    stop: AtomicBool,
}

/// Development aid: fewer cases, and stop at the first violation.
fn fast() -> bool {
    std::env::var("HARNESS_FAST").is_ok()
}

/// How many times more random cases the cheap monitors run on every change.
fn boost(id: &str) -> u64 {
    if fast() {
        return 1;
    }
    match id {
        "C04" | "C05" | "C06" | "C08" | "C14" | "C15" => 5,
        "C07" => 3,
        "C09" => 2,
        "C10" => 30,
        "C11" | "C16" => 12,
        "C12" | "C13" => 8,
        "C17" | "C25" => 16,
        "C18" | "C19" | "C20" | "C21" | "C22" => 12,
        "C23" => 8,
        _ => 1,
    }
}

impl Ctx {
    pub fn new(id: &str, thorough: bool, seed: u64, only: Option<(String, u64)>, threads: usize, slots: Option<std::fs::File>) -> Self {
        Ctx {
            id: id.to_string(),
            thorough,
            seed,
            sub: std::env::var("HARNESS_SUB").unwrap_or_default(),
            only,
            all: Default::default(),
            violations: Default::default(),
            errors: Default::default(),
            start: Instant::now(),
            threads,
            slots,
            alive: AtomicU64::new(0),
            budget: Duration::from_secs(match std::env::var("HARNESS_SUB").as_deref().unwrap_or("") {
                "" if !thorough => 500,
                "" if id == "C26" || id == "C27" => 280,
                "" => 600,
                _ => if thorough { 180 } else { 120 },
            }),
            rule: Default::default(),
            assumptions: Default::default(),
            extra: Default::default(),
            stages_run: Default::default(),
            stop: AtomicBool::new(false),
        }
    }
    pub fn rule(&self, s: &str) {
        *self.rule.lock().unwrap() = s.to_string();
    }
    pub fn assume(&self, s: &str) {
        self.assumptions.lock().unwrap().push(s.to_string());
    }
    pub fn extra(&self, k: &str, json: String) {
        self.extra.lock().unwrap().insert(k.to_string(), json);
    }
    pub fn replaying(&self) -> bool {
        self.only.is_some()
    }
    pub fn error(&self, s: String) {
        self.errors.lock().unwrap().push(s);
    }
    pub fn violation(&self, stage: &str, case: u64, msg: String) {
        let mut v = self.violations.lock().unwrap();
        if v.len() < 10 {
            if fast() {
                self.stop.store(true, Ordering::Relaxed);
            }
            v.push(Violation { stage: stage.to_string(), case, msg });
        } else {
            self.stop.store(true, Ordering::Relaxed);
        }
    }

    /// The random source of a given case.
    pub fn rng(&self, stage: &str, case: u64) -> Rng {
        Rng::new(hash(&(self.seed, self.id.as_str(), stage, case)))
    }

    /// Run `quick` (or `thorough`) cases of a stage, spread over the worker threads.
    pub fn cases(&self, stage: &str, quick: u64, thorough: u64, f: impl Fn(u64, &mut Rng, &mut Obs) -> R<()> + Sync) {
        let base = if self.thorough { thorough } else { quick };
        let n = if !self.thorough && base >= 1000 { base * boost(&self.id) } else { base };
        self.run_cases(stage, n, base, &f);
    }

    /// A finite space, enumerated completely at every tier.
    pub fn exhaust(&self, stage: &str, n: u64, f: impl Fn(u64, &mut Rng, &mut Obs) -> R<()> + Sync) {
        self.run_cases(stage, n, n, &f);
    }

    /// The cases from `base` on are left out when the stage takes long (on a slow or busy machine).
    fn run_cases(&self, stage: &str, n: u64, base: u64, f: &(dyn Fn(u64, &mut Rng, &mut Obs) -> R<()> + Sync)) {
        if let Some((s, c)) = &self.only {
            if s != stage {
                return;
            }
            let mut o = Obs::default();
            self.one(stage, *c, f, &mut o, 0);
            self.all.lock().unwrap().merge(o);
            return;
        }
        let t0 = Instant::now();
        let next = AtomicU64::new(0);
        let slot = AtomicUsize::new(0);
        // Dispense in blocks so that a stage with few heavy cases still spreads.
        let block = (n / (self.threads as u64 * 16)).clamp(1, 64);
        let work = || {
            let my = slot.fetch_add(1, Ordering::Relaxed);
            let mut o = Obs::default();
            'outer: loop {
                let b = next.fetch_add(block, Ordering::Relaxed);
                if b >= n {
                    break;
                }
                for c in b..(b + block).min(n) {
                    if c >= base && t0.elapsed().as_secs() > 90 {
                        o.count("additional cases left out to save time", 1);
                        break 'outer;
                    }
                    if self.stop.load(Ordering::Relaxed) || self.start.elapsed() > self.budget {
                        o.count("cases skipped after the time budget", 1);
                        break 'outer;
                    }
                    self.one(stage, c, f, &mut o, my);
                    // Shows a supervisor of this process that it advances.
                    if !self.sub.is_empty() {
                        let now = self.start.elapsed().as_secs() / 5;
                        if self.alive.fetch_max(now, Ordering::Relaxed) < now { println!("ALIVE {stage} {c}"); }
                    }
                }
            }
            self.mark(my, "idle");
            self.all.lock().unwrap().merge(o);
        };
        if self.threads <= 1 {
            work();
        } else {
            std::thread::scope(|s| {
                for _ in 0..self.threads {
                    std::thread::Builder::new().stack_size(768 << 20).spawn_scoped(s, &work).unwrap();
                }
            });
        }
        self.stages_run.lock().unwrap().push(format!("{stage}: {n} cases, {:.1}s", t0.elapsed().as_secs_f64()));
    }

    fn mark(&self, slot: usize, s: &str) {
        if let Some(f) = &self.slots {
            let mut b = [b' '; 64];
            let s = s.as_bytes();
            b[..s.len().min(63)].copy_from_slice(&s[..s.len().min(63)]);
            b[63] = b'\n';
            let _ = f.write_all_at(&b, slot as u64 * 64);
        }
    }

    fn one(&self, stage: &str, c: u64, f: &(dyn Fn(u64, &mut Rng, &mut Obs) -> R<()> + Sync), o: &mut Obs, slot: usize) {
        self.mark(slot, &format!("{stage} {c}"));
        let mut rng = self.rng(stage, c);
        crate::rng::iterators(hash(&(self.seed, stage, c, "iterators")));
        let r = guarded(|| f(c, &mut rng, o));
        match r {
            Ok(Ok(())) => {}
            Ok(Err(m)) if m.starts_with("HARNESS") => self.error(format!("{stage}/{c}: {m}")),
            Ok(Err(m)) => self.violation(stage, c, m),
            Err(m) if m.starts_with("HARNESS") => self.error(format!("{stage}/{c}: {m}")),
            Err(m) => self.violation(stage, c, format!("unexpected panic: {m}")),
        }
    }

    /// One judgement made by another process; `f` is given a function that shows progress.
    pub fn external(&self, stage: &str, f: impl FnOnce(&dyn Fn(&str)) -> R<()>) {
        if self.replaying() || self.stop.load(Ordering::Relaxed) {
            return;
        }
        let t0 = Instant::now();
        let n = AtomicU64::new(0);
        let say = |_: &str| self.mark(0, &format!("{stage} {}", n.fetch_add(1, Ordering::Relaxed)));
        say("");
        match f(&say) {
            Ok(()) => {}
            Err(m) if m.starts_with("HARNESS") => self.error(format!("{stage}: {m}")),
            Err(m) => self.violation(stage, 0, m),
        }
        self.mark(0, "idle");
        self.stages_run.lock().unwrap().push(format!("{stage}: 1 run, {:.1}s", t0.elapsed().as_secs_f64()));
    }

    /// Inconclusive (exit 2) unless at least this much was observed.
    pub fn require(&self, k: &str, min: u64) {
        if self.replaying() || self.stop.load(Ordering::Relaxed) {
            return;
        }
        let a = self.all.lock().unwrap();
        let have = a.counters.get(k).copied().or(a.maxima.get(k).copied()).or(a.sets.get(k).map(|s| s.len() as u64)).unwrap_or(0);
        drop(a);
        if have < min && self.violations.lock().unwrap().is_empty() {
            self.error(format!("observed too little: {k} = {have}, need {min}"));
        }
    }
    pub fn set_len(&self, k: &str) -> u64 {
        self.all.lock().unwrap().sets.get(k).map_or(0, |s| s.len() as u64)
    }

    pub fn evidence_json(&self) -> String {
        let a = self.all.lock().unwrap();
        let mut s = String::new();
        s.push_str("{\n");
        s.push_str(&format!(" \"property\": {},\n", js(&self.id)));
        s.push_str(&format!(" \"tier\": {},\n", js(if self.thorough { "thorough" } else { "quick" })));
        s.push_str(&format!(" \"seed\": {},\n", self.seed));
        s.push_str(" \"level\": \"exploration\",\n \"coverage\": {\n");
        s.push_str(&format!("  \"evaluations\": {},\n", a.evals));
        s.push_str(&format!("  \"distinct_nontrivial\": {},\n", a.nontrivial.len()));
        s.push_str(&format!("  \"rule\": {},\n", js(&self.rule.lock().unwrap())));
        let obs: Vec<String> = a
            .counters
            .iter()
            .map(|(k, v)| (k.clone(), *v))
            .chain(a.maxima.iter().map(|(k, v)| (format!("max {k}"), *v)))
            .chain(a.sets.iter().map(|(k, v)| (format!("distinct {k}"), v.len() as u64)))
            .map(|(k, v)| format!("   {}: {v}", js(&k)))
            .collect();
        s.push_str(&format!("  \"observed\": {{\n{}\n  }},\n", obs.join(",\n")));
        for (k, v) in self.extra.lock().unwrap().iter() {
            s.push_str(&format!("  {}: {v},\n", js(k)));
        }
        let st: Vec<String> = self.stages_run.lock().unwrap().iter().map(|x| js(x)).collect();
        s.push_str(&format!("  \"stages\": [{}],\n", st.join(", ")));
        let sm: Vec<String> = a.samples.iter().map(|x| js(x)).collect();
        s.push_str(&format!("  \"samples\": [{}]\n }},\n", sm.join(", ")));
        let asm: Vec<String> = self.assumptions.lock().unwrap().iter().map(|x| js(x)).collect();
        s.push_str(&format!(" \"assumptions\": [{}],\n", asm.join(", ")));
        s.push_str(&format!(" \"wall_s\": {:.2},\n", self.start.elapsed().as_secs_f64()));
        s.push_str(&format!(" \"violations\": {}\n}}\n", self.violations.lock().unwrap().len()));
        s
    }

    /// Write evidence and report; returns the exit code.
    pub fn finish(&self, root: &str) -> i32 {
        let ev = format!("{root}/evidence");
        let _ = std::fs::create_dir_all(&ev);
        if !self.replaying() {
            if let Err(e) = std::fs::write(format!("{ev}/{}.json", self.id), self.evidence_json()) {
                self.error(format!("cannot write evidence: {e}"));
            }
        }
        let v = self.violations.lock().unwrap();
        let out = std::io::stdout();
        let mut out = out.lock();
        if !v.is_empty() {
            for (i, x) in v.iter().enumerate() {
                let path = format!("{ev}/replay-{}-{i}.txt", self.id);
                let _ = std::fs::write(&path, format!("{}\n{}\n{}\n{}\n{}\n", self.id, self.seed, x.stage, x.case, x.msg));
                let _ = writeln!(out, "{}: stage {} case {}: {}", self.id, x.stage, x.case, x.msg);
                let _ = writeln!(out, "VIOLATION property={} replay={path}", self.id);
            }
            return 1;
        }
        let e = self.errors.lock().unwrap();
        if !e.is_empty() {
            for x in e.iter().take(10) {
                let _ = writeln!(out, "ERROR {}: {x}", self.id);
            }
            return 2;
        }
        let a = self.all.lock().unwrap();
        let _ = writeln!(out, "{} held: {} evaluations, {} distinct non-trivial, {:.1}s", self.id, a.evals, a.nontrivial.len(), self.start.elapsed().as_secs_f64());
        0
    }
}

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || (c as u32) == 0x7f => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
