//! Running cases, classifying what happened, and writing evidence.
use crate::rng::{hash_bytes, hash_u64, Rng};
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Debug, Clone, Copy, PartialEq)]
pub enum Tier {
    Quick,
    Thorough,
}

/// A property was seen broken.
#[derive(Debug, Clone)]
pub struct Fail {
    /// exact signature, matched against the committed list of known findings
    pub sig: String,
    pub detail: String,
}
pub type Res = Result<(), Fail>;

#[macro_export]
macro_rules! fail {
    ($sig:expr, $($arg:tt)*) => {
        return Err($crate::report::Fail { sig: $sig.to_string(), detail: format!($($arg)*) })
    };
}
#[macro_export]
macro_rules! ensure {
    ($cond:expr, $sig:expr, $($arg:tt)*) => {
        if !($cond) { $crate::fail!($sig, $($arg)*); }
    };
}

/// What the monitors saw while a case ran.
#[derive(Default)]
pub struct Obs {
    pub counts: BTreeMap<&'static str, u64>,
    pub maxima: BTreeMap<&'static str, u64>,
    pub fingerprint: u64,
    pub nontrivial: bool,
    pub sample: Option<String>,
    pub known: Vec<Fail>,
}
impl Obs {
    pub fn add(&mut self, k: &'static str, n: u64) {
        *self.counts.entry(k).or_insert(0) += n;
    }
    pub fn max(&mut self, k: &'static str, n: u64) {
        let e = self.maxima.entry(k).or_insert(0);
        *e = (*e).max(n);
    }
    /// Identify what this case exercised; equal cases count once.
    pub fn mark(&mut self, text: &str) {
        self.fingerprint = hash_bytes(text.as_bytes());
        self.nontrivial = true;
        if self.sample.is_none() {
            let mut s = text.to_string();
            if s.len() > 600 {
                let mut k = 600;
                while !s.is_char_boundary(k) {
                    k -= 1;
                }
                s.truncate(k);
                s.push_str("...");
            }
            self.sample = Some(s);
        }
    }
}

thread_local! {
    static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
    pub static QUIET: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}
pub static LAST_PANIC_ANY: Mutex<String> = Mutex::new(String::new());

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let text = format!("panic at {}: {}", loc, msg);
        LAST_PANIC.with(|p| *p.borrow_mut() = text.clone());
        *LAST_PANIC_ANY.lock().unwrap_or_else(|e| e.into_inner()) = text;
    }));
}

/// Call into the library: a panic is reported as text.
pub fn attempt<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    LAST_PANIC.with(|p| p.borrow_mut().clear());
    catch_unwind(AssertUnwindSafe(f)).map_err(|payload| {
        let t = LAST_PANIC.with(|p| p.borrow().clone());
        if !t.is_empty() {
            return t;
        }
        if let Some(s) = payload.downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = payload.downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        }
    })
}

/// Call into the library with a request that must be answered.
pub fn lib<R>(what: &str, f: impl FnOnce() -> R) -> Result<R, Fail> {
    attempt(f).map_err(|m| Fail {
        sig: format!("panic:{}", what),
        detail: format!("{}: the library refused or crashed on a valid request: {}", what, m),
    })
}

/// Call into the library with a request that must be refused.
pub fn refused<R>(what: &str, f: impl FnOnce() -> R) -> Result<String, Fail> {
    match attempt(f) {
        Ok(_) => Err(Fail {
            sig: format!("answered:{}", what),
            detail: format!("{}: an invalid request was answered instead of refused", what),
        }),
        Err(m) => Ok(m),
    }
}

pub struct Run {
    pub id: &'static str,
    pub tier: Tier,
    pub seed: u64,
    pub only_case: Option<u64>,
    pub evidence: Option<String>,
    pub replay_dir: String,
    pub known: Vec<String>,
    pub start: Instant,
    pub budget: Duration,
    total: Mutex<Total>,
    stop: AtomicBool,
}

#[derive(Default)]
struct Total {
    evaluations: u64,
    prints: HashSet<u64>,
    samples: Vec<String>,
    counts: BTreeMap<&'static str, u64>,
    maxima: BTreeMap<&'static str, u64>,
    fails: Vec<(u64, Fail)>,
    known_seen: BTreeMap<String, (u64, String)>,
    capped: bool,
}

/// What each worker is doing, for the watcher.
/// Cases from here on reach sizes at which counters, chunks and tables of an implementation may turn over
#[allow(dead_code)]
pub const LARGE: u64 = 1 << 40;

pub struct Slot {
    tid: AtomicU64,
    case: AtomicU64,
    cpu_at_start: AtomicU64,
}
pub static SLOTS: [Slot; 64] = [const {
    Slot {
        tid: AtomicU64::new(0),
        case: AtomicU64::new(u64::MAX),
        cpu_at_start: AtomicU64::new(0),
    }
}; 64];
pub static PROGRESS: AtomicU64 = AtomicU64::new(0);

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

extern "C" {
    fn syscall(n: i64, ...) -> i64;
}
pub fn gettid() -> u64 {
    unsafe { syscall(186) as u64 }
}

/// user+system time of a thread in clock ticks
fn task_cpu(tid: u64) -> Option<u64> {
    let s = std::fs::read_to_string(format!("/proc/self/task/{}/stat", tid)).ok()?;
    let rest = &s[s.rfind(')')? + 2..];
    let f: Vec<&str> = rest.split(' ').collect();
    Some(f[11].parse::<u64>().ok()? + f[12].parse::<u64>().ok()?)
}

/// Some(switches) if the thread sleeps in a futex wait without timeout
fn task_parked(tid: &str) -> Option<String> {
    let d = format!("/proc/self/task/{}", tid);
    let s = std::fs::read_to_string(format!("{}/stat", d)).ok()?;
    let rest = &s[s.rfind(')')? + 2..];
    if !rest.starts_with('S') {
        return None;
    }
    let sc = std::fs::read_to_string(format!("{}/syscall", d)).ok()?;
    let f: Vec<&str> = sc.split_whitespace().collect();
    if f.len() < 5 || f[0] != "202" || f[4] != "0x0" {
        return None;
    }
    let st = std::fs::read_to_string(format!("{}/status", d)).ok()?;
    let sw: Vec<&str> = st.lines().filter(|l| l.contains("ctxt_switches")).collect();
    Some(format!("{} {} {:?}", tid, f[1], sw))
}

/// CPU seconds one case may use; cases take milliseconds to a few seconds.
const CASE_CPU_LIMIT: u64 = 150;

fn active_cases() -> Vec<u64> {
    SLOTS
        .iter()
        .map(|s| s.case.load(Ordering::SeqCst))
        .filter(|c| *c != u64::MAX)
        .collect()
}

impl Run {
    pub fn new(id: &'static str, tier: Tier, seed: u64) -> Self {
        Run {
            id,
            tier,
            seed,
            only_case: None,
            evidence: None,
            replay_dir: "replay".into(),
            known: vec![],
            start: Instant::now(),
            budget: Duration::from_secs(60),
            total: Mutex::new(Total::default()),
            stop: AtomicBool::new(false),
        }
    }

    pub fn quick(&self) -> bool {
        self.tier == Tier::Quick
    }
    pub fn pick(&self, quick: u64, thorough: u64) -> u64 {
        if self.quick() {
            quick
        } else {
            thorough
        }
    }

    pub fn case_rng(&self, case: u64) -> Rng {
        Rng::new(hash_u64(hash_u64(hash_bytes(self.id.as_bytes()), self.seed), case))
    }

    /// Deadlock and runaway watcher: decides on thread states and CPU time, never on elapsed time.
    pub fn watch(&'static self) {
        std::thread::spawn(move || {
            let me = gettid().to_string();
            let mut last: Vec<String> = vec![];
            let mut same = 0;
            loop {
                std::thread::sleep(Duration::from_millis(1000));
                let mut now = vec![];
                let mut all = true;
                if let Ok(rd) = std::fs::read_dir("/proc/self/task") {
                    for e in rd.flatten() {
                        let n = e.file_name().to_string_lossy().to_string();
                        if n == me {
                            continue;
                        }
                        match task_parked(&n) {
                            Some(x) => now.push(x),
                            None => all = false,
                        }
                    }
                }
                now.sort();
                if all && now == last {
                    same += 1;
                } else {
                    same = 0;
                }
                last = now;
                if same >= 15 {
                    let cases = active_cases();
                    self.emergency(
                        cases.first().copied().unwrap_or(0),
                        "deadlock",
                        &format!(
                            "every thread waits for another one for good (cases under way: {:?}; parked: {:?})",
                            cases, last
                        ),
                    );
                }
                for s in SLOTS.iter() {
                    let c = s.case.load(Ordering::SeqCst);
                    if c == u64::MAX {
                        continue;
                    }
                    if let Some(cpu) = task_cpu(s.tid.load(Ordering::SeqCst)) {
                        let used = cpu.saturating_sub(s.cpu_at_start.load(Ordering::SeqCst));
                        if used > CASE_CPU_LIMIT * 100 && s.case.load(Ordering::SeqCst) == c {
                            self.emergency(
                                c,
                                "no-termination",
                                &format!("case {} used {} s of CPU time without finishing (cases take well under {} s)", c, used / 100, CASE_CPU_LIMIT / 10),
                            );
                        }
                    }
                }
            }
        });
    }

    fn emergency(&self, case: u64, sig: &str, detail: &str) -> ! {
        let f = Fail { sig: sig.into(), detail: detail.into() };
        let path = self.write_replay(case, &f);
        println!("detail: {}", f.detail);
        println!("VIOLATION property={} replay={}", self.id, path);
        self.write_evidence(1, "(watcher stopped the run)");
        use std::io::Write;
        let _ = std::io::stdout().flush();
        std::process::exit(1);
    }

    fn write_replay(&self, case: u64, f: &Fail) -> String {
        let _ = std::fs::create_dir_all(&self.replay_dir);
        let path = format!("{}/{}-{}-{}.json", self.replay_dir, self.id, self.seed, case);
        let text = format!(
            "{{\"property\":\"{}\",\"tier\":\"{}\",\"seed\":{},\"case\":{},\"sig\":{},\"detail\":{}}}\n",
            self.id,
            if self.quick() { "quick" } else { "thorough" },
            self.seed,
            case,
            json_str(&f.sig),
            json_str(&f.detail)
        );
        let _ = std::fs::write(&path, text);
        path
    }

    fn one_case(&self, case: u64, f: &(dyn Fn(u64, &mut Rng, &mut Obs) -> Res + Sync)) {
        let mut obs = Obs::default();
        let mut rng = self.case_rng(case);
        let r = match catch_unwind(AssertUnwindSafe(|| f(case, &mut rng, &mut obs))) {
            Ok(r) => r,
            Err(_) => {
                let mut m = LAST_PANIC.with(|p| p.borrow().clone());
                if m.is_empty() {
                    m = LAST_PANIC_ANY.lock().unwrap_or_else(|e| e.into_inner()).clone();
                }
                if m.contains("failed to spawn thread") || m.contains("Resource temporarily") {
                    println!("harness error: {}", m);
                    std::process::exit(3);
                }
                Err(Fail { sig: "panic".into(), detail: format!("panic while the case ran: {}", m) })
            }
        };
        let mut t = self.total.lock().unwrap();
        t.evaluations += 1;
        for (k, v) in obs.counts {
            *t.counts.entry(k).or_insert(0) += v;
        }
        for (k, v) in obs.maxima {
            let e = t.maxima.entry(k).or_insert(0);
            *e = (*e).max(v);
        }
        if obs.nontrivial && t.prints.insert(obs.fingerprint) && t.samples.len() < 4 {
            if let Some(s) = obs.sample {
                t.samples.push(format!("case {}: {}", case, s));
            }
        }
        let mut fails = obs.known;
        if let Err(f) = r {
            fails.push(f);
        }
        for f in fails {
            if self.known.contains(&f.sig) {
                let e = t.known_seen.entry(f.sig.clone()).or_insert((0, f.detail.clone()));
                e.0 += 1;
            } else if t.fails.len() < 5 {
                t.fails.push((case, f));
                self.stop.store(true, Ordering::SeqCst);
            }
        }
    }

    /// Run cases 0..n on `threads` workers; stops early only on a violation or when the time is up.
    pub fn cases(&self, base: u64, n: u64, threads: usize, f: impl Fn(u64, &mut Rng, &mut Obs) -> Res + Sync) {
        if let Some(c) = self.only_case {
            if c >= base && c < base + n {
                SLOTS[0].tid.store(gettid(), Ordering::SeqCst);
                SLOTS[0].cpu_at_start.store(task_cpu(gettid()).unwrap_or(0), Ordering::SeqCst);
                SLOTS[0].case.store(c, Ordering::SeqCst);
                self.one_case(c, &f);
                SLOTS[0].case.store(u64::MAX, Ordering::SeqCst);
            }
            return;
        }
        let next = AtomicU64::new(0);
        let w = AtomicUsize::new(0);
        std::thread::scope(|s| {
            for _ in 0..threads {
                std::thread::Builder::new()
                    .stack_size(16 << 20)
                    .spawn_scoped(s, || {
                        let slot = &SLOTS[w.fetch_add(1, Ordering::SeqCst) % SLOTS.len()];
                        slot.tid.store(gettid(), Ordering::SeqCst);
                        loop {
                            if self.stop.load(Ordering::SeqCst) {
                                break;
                            }
                            let i = next.fetch_add(1, Ordering::SeqCst);
                            if i >= n {
                                break;
                            }
                            if self.start.elapsed() > self.budget {
                                self.total.lock().unwrap().capped = true;
                                break;
                            }
                            slot.cpu_at_start.store(task_cpu(gettid()).unwrap_or(0), Ordering::SeqCst);
                            slot.case.store(base + i, Ordering::SeqCst);
                            self.one_case(base + i, &f);
                            slot.case.store(u64::MAX, Ordering::SeqCst);
                            PROGRESS.fetch_add(1, Ordering::Relaxed);
                        }
                    })
                    .expect("spawn worker");
            }
        });
    }

    /// `n` ordinary cases, then `large` of the same kind that are told to be large (case >= LARGE)
    pub fn cases_and_large(&self, n: u64, large: u64, threads: usize, f: impl Fn(u64, &mut Rng, &mut Obs) -> Res + Sync) {
        self.cases(0, n, threads, &f);
        self.cases(LARGE, large, threads, &f);
    }

    pub fn stopped(&self) -> bool {
        self.stop.load(Ordering::SeqCst)
    }

    fn write_evidence(&self, violations: usize, rule: &str) {
        let Some(path) = &self.evidence else { return };
        let t = self.total.lock().unwrap_or_else(|e| e.into_inner());
        let mut extra = String::new();
        for (k, v) in t.counts.iter() {
            extra.push_str(&format!(",\n  {}: {}", json_str(k), v));
        }
        for (k, v) in t.maxima.iter() {
            extra.push_str(&format!(",\n  {}: {}", json_str(&format!("max {}", k)), v));
        }
        let samples: Vec<String> = t.samples.iter().map(|s| json_str(s)).collect();
        let known: Vec<String> = t
            .known_seen
            .iter()
            .map(|(k, v)| json_str(&format!("{} (seen {} times) {}", k, v.0, v.1)))
            .collect();
        let text = format!(
            "{{\n \"property\": \"{}\",\n \"tier\": \"{}\",\n \"seed\": {},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"samples\": [{}],\n  \"stopped_by_time_limit\": {},\n  \"known_findings_seen\": [{}]{}\n }},\n \"assumptions\": [],\n \"wall_s\": {:.2},\n \"violations\": {}\n}}\n",
            self.id,
            if self.quick() { "quick" } else { "thorough" },
            self.seed,
            t.evaluations,
            t.prints.len(),
            json_str(rule),
            samples.join(", "),
            t.capped,
            known.join(", "),
            extra,
            self.start.elapsed().as_secs_f64(),
            violations
        );
        let _ = std::fs::create_dir_all(std::path::Path::new(path).parent().unwrap());
        std::fs::write(path, text).expect("write evidence");
    }

    /// Report and give the exit code.
    pub fn finish(&self, rule: &str) -> i32 {
        let (fails, known, evals, prints) = {
            let t = self.total.lock().unwrap();
            (t.fails.clone(), t.known_seen.clone(), t.evaluations, t.prints.len())
        };
        for (k, v) in known.iter() {
            println!("KNOWN-FINDING: property={} {} ({})", self.id, k, v.1.replace('\n', " "));
        }
        for (case, f) in fails.iter() {
            let path = self.write_replay(*case, f);
            println!("case {}: [{}] {}", case, f.sig, f.detail);
            println!("VIOLATION property={} replay={}", self.id, path);
        }
        self.write_evidence(fails.len(), rule);
        println!(
            "{}: {} cases, {} distinct non-trivial, {} violations, {:.1} s",
            self.id,
            evals,
            prints,
            fails.len(),
            self.start.elapsed().as_secs_f64()
        );
        if !fails.is_empty() {
            1
        } else if evals == 0 || (prints < 2 && self.only_case.is_none()) {
            println!("inconclusive: nothing was observed");
            2
        } else {
            0
        }
    }
}
