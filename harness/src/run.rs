//! Runtime-monitoring harness core: deterministic case scheduling over all
//! cores, panic capture, verdicts, replay files, evidence files.
//! Knows nothing about the code under test.
use std::any::Any;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::io::Write;
use std::panic::{self, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

use crate::{hash_bytes, mix, Rng, H0};

// ------------------------------------------------- aborts, hangs, memory use

/// What a worker thread is running, so that a death or a hang of the process
/// can still be attributed to a case.
struct Running {
    since: Instant,
    /// the watch's own clock when the case began
    tick: u64,
    workload: String,
    index: u64,
}

static RUNNING: Mutex<Option<HashMap<u64, Running>>> = Mutex::new(None);
fn running() -> std::sync::MutexGuard<'static, Option<HashMap<u64, Running>>> {
    RUNNING.lock().unwrap_or_else(|e| e.into_inner())
}
/// Milliseconds during which this process could run: a machine that stands
/// still for an hour does not make a case hang.
static CLOCK: AtomicU64 = AtomicU64::new(0);
static NEXT_WORKER: AtomicU64 = AtomicU64::new(0);

/// (path of the replay file, NUL terminated; its text; the line to print)
type LastWords = (Vec<u8>, Vec<u8>, Vec<u8>);

thread_local! {
    static LAST_WORDS: RefCell<Option<LastWords>> = RefCell::new(None);
}

extern "C" {
    fn signal(number: i32, handler: usize) -> usize;
    fn open(path: *const i8, flags: i32, ...) -> i32;
    fn write(fd: i32, text: *const u8, length: usize) -> isize;
    fn _exit(code: i32) -> !;
}

/// SIGABRT: a panic while unwinding, a stack overflow or a failed allocation
/// inside the code under test.
extern "C" fn on_abort(_: i32) {
    let _ = LAST_WORDS.try_with(|w| unsafe {
        if let Some((path, body, line)) = &*w.as_ptr() {
            let fd = open(path.as_ptr() as *const i8, 0o1101, 0o644u32);
            write(fd, body.as_ptr(), body.len());
            write(1, line.as_ptr(), line.len());
            _exit(1)
        }
    });
    unsafe { _exit(134) }
}

fn resident_gigabytes() -> f64 {
    std::fs::read_to_string("/proc/self/statm").ok()
        .and_then(|t| t.split_whitespace().nth(1).and_then(|p| p.parse::<u64>().ok()))
        .map_or(0.0, |pages| pages as f64 * 4096.0 / 1e9)
}

// -------------------------------------------------------------------- panics

thread_local! {
    static LAST_PANIC: RefCell<Option<String>> = RefCell::new(None);
}

pub struct Violation {
    pub key: Option<String>,
    pub msg: String,
}

/// Runs `f`; Err(description) when it panicked.
pub fn caught<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    panic::catch_unwind(AssertUnwindSafe(f)).map_err(|p| describe(&p).1)
}

/// True when `f` panics (is rejected).
pub fn rejects<R>(f: impl FnOnce() -> R) -> bool {
    caught(|| { f(); }).is_err()
}

fn describe(p: &Box<dyn Any + Send>) -> (Option<String>, String) {
    if let Some(v) = p.downcast_ref::<Violation>() {
        return (v.key.clone(), v.msg.clone());
    }
    let at = LAST_PANIC.with(|l| l.borrow_mut().take());
    let text = if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "<opaque panic payload>".to_string()
    };
    let text = text.replace('\n', " ");
    (None, format!("panicked: {} [{}]", text, at.unwrap_or_default()))
}

fn install_hook() {
    let tell = arg("--scale").is_some();
    panic::set_hook(Box::new(move |info| {
        // a library precondition was checked by the library itself
        if tell && info.to_string().contains("unsafe precondition") {
            eprintln!("PRECONDITION {}", info.to_string().replace('\n', " "));
        }
        let at = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if std::env::var_os("HARNESS_DEBUG").is_some() {
            eprintln!("{}", info);
        }
        LAST_PANIC.with(|l| *l.borrow_mut() = Some(at));
    }));
}

// --------------------------------------------------------------------- cases

pub struct Case {
    pub rng: Rng,
    pub index: u64,
    pub thorough: bool,
    workload: String,
    desc: String,
    sig: u64,
    nontrivial: bool,
    counters: BTreeMap<&'static str, u64>,
    sets: BTreeMap<&'static str, HashSet<u64>>,
    maxes: BTreeMap<&'static str, f64>,
}

impl Case {
    /// A readable statement of the case: goes to samples and replay files.
    pub fn desc(&mut self, s: impl Into<String>) {
        self.desc = s.into();
    }
    /// Folds something that identifies this case's input or observed trace.
    pub fn sig(&mut self, v: u64) {
        self.sig = mix(self.sig, v);
    }
    pub fn sig_bytes(&mut self, v: &[u8]) {
        self.sig = mix(self.sig, hash_bytes(H0, v));
    }
    /// The case did exercise what the monitor is about.
    pub fn nontrivial(&mut self) {
        self.nontrivial = true;
    }
    pub fn count(&mut self, name: &'static str, n: u64) {
        *self.counters.entry(name).or_insert(0) += n;
    }
    /// Counts distinct observed states (capped).
    pub fn seen(&mut self, name: &'static str, state: u64) {
        let s = self.sets.entry(name).or_default();
        if s.len() < 200_000 {
            s.insert(state);
        }
    }
    pub fn max(&mut self, name: &'static str, v: f64) {
        let e = self.maxes.entry(name).or_insert(f64::MIN);
        if v > *e {
            *e = v;
        }
    }
    pub fn fail(&self, msg: impl Into<String>) -> ! {
        panic::panic_any(Violation { key: None, msg: msg.into() })
    }
    pub fn fail_key(&self, key: &str, msg: impl Into<String>) -> ! {
        panic::panic_any(Violation { key: Some(key.to_string()), msg: msg.into() })
    }
    /// Runs code under test that must not panic; adds context when it does.
    pub fn guarded<R>(&self, what: &str, f: impl FnOnce() -> R) -> R {
        match panic::catch_unwind(AssertUnwindSafe(f)) {
            Ok(r) => r,
            Err(p) => {
                if p.is::<Violation>() {
                    panic::resume_unwind(p);
                }
                let (_, m) = describe(&p);
                self.fail(format!("{}: {}", what, m))
            }
        }
    }
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $cond:expr, $($arg:tt)*) => {
        if !$cond { $c.fail(format!($($arg)*)); }
    };
}

#[derive(Default)]
struct Totals {
    evaluations: u64,
    sigs: HashSet<u64>,
    nontrivial_total: u64,
    counters: BTreeMap<String, u64>,
    sets: BTreeMap<String, HashSet<u64>>,
    maxes: BTreeMap<String, f64>,
    samples: Vec<String>,
    per_workload: BTreeMap<String, u64>,
    violations: Vec<(String, u64, Option<String>, String, String)>,
    known: BTreeMap<String, String>,
    extra_distinct: u64,
}

pub struct Runner {
    pub id: String,
    pub tier: String,
    pub seed: u64,
    pub profile: &'static str,
    rule: String,
    level: String,
    assumptions: Vec<String>,
    required: Vec<(String, u64)>,
    replay: Option<(String, u64)>,
    replayed: bool,
    known: Vec<(String, String)>,
    start: Instant,
    soft_limit: Duration,
    truncated: bool,
    exhaustive: Vec<String>,
    extra: BTreeMap<String, String>,
    t: Mutex<Totals>,
    out_dir: String,
    evidence: Option<String>,
    /// the same workloads at a reduced size: for runs under a sanitizer that
    /// are judged by the sanitizer alone
    scale: f64,
    skip: Vec<String>,
}

fn arg(name: &str) -> Option<String> {
    let a: Vec<String> = std::env::args().collect();
    a.iter().position(|x| x == name).and_then(|i| a.get(i + 1).cloned())
}

pub fn threads() -> usize {
    if let Some(n) = arg("--threads").and_then(|n| n.parse().ok()) {
        return n;
    }
    std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(16)
}

impl Runner {
    pub fn thorough(&self) -> bool {
        self.tier == "thorough"
    }
    /// picks a size by tier
    pub fn n(&self, quick: u64, thorough: u64) -> u64 {
        if self.thorough() { thorough } else { quick }
    }
    pub fn assume(&mut self, s: &str) {
        self.assumptions.push(s.to_string());
    }
    /// The run is inconclusive when the named counter stays below `min`.
    pub fn require(&mut self, counter: &str, min: u64) {
        self.required.push((counter.to_string(), min));
    }
    pub fn exhaustive(&mut self, what: &str) {
        self.exhaustive.push(what.to_string());
    }
    pub fn note(&mut self, k: &str, v: impl Into<String>) {
        self.extra.insert(k.to_string(), v.into());
    }
    /// a reduced run under a sanitizer: leave out single long cases
    pub fn scaled(&self) -> bool {
        self.scale < 1.0
    }
    pub fn is_replay(&self) -> bool {
        self.replay.is_some()
    }

    fn case_seed(&self, workload: &str, index: u64) -> u64 {
        let mut h = hash_bytes(H0, self.id.as_bytes());
        h = hash_bytes(h, workload.as_bytes());
        mix(mix(h, self.seed), index)
    }

    /// Runs cases 0..n of a workload over all cores.
    pub fn cases(&mut self, workload: &str, n: u64, f: impl Fn(&mut Case) + Sync) {
        if self.skip.iter().any(|s| s == workload) {
            return;
        }
        let n = if n <= 2 { n } else { ((n as f64 * self.scale).ceil() as u64).clamp(2, n) };
        let mut range = (0, n);
        if let Some((w, i)) = &self.replay {
            if w != workload {
                return;
            }
            range = (*i, *i + 1);
            self.replayed = true;
        }
        if !self.t.lock().unwrap().violations.is_empty() {
            return;
        }
        let next = AtomicU64::new(range.0);
        let stop = AtomicBool::new(false);
        let truncated = AtomicBool::new(false);
        let me = &*self;
        let chunk = ((range.1 - range.0) / (threads() as u64 * 16)).clamp(1, 64);
        std::thread::scope(|s| {
            for _ in 0..threads() {
                let worker = || {
                    let mut local = Totals::default();
                    let worker = NEXT_WORKER.fetch_add(1, Ordering::Relaxed);
                    'outer: loop {
                        let from = next.fetch_add(chunk, Ordering::Relaxed);
                        if from >= range.1 || stop.load(Ordering::Relaxed) {
                            break;
                        }
                        for index in from..(from + chunk).min(range.1) {
                            if me.start.elapsed() > me.soft_limit {
                                truncated.store(true, Ordering::Relaxed);
                                break 'outer;
                            }
                            let bad = me.one_case(worker, workload, index, &f, &mut local);
                            if bad {
                                stop.store(true, Ordering::Relaxed);
                                break 'outer;
                            }
                        }
                    }
                    me.merge(local);
                };
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(s, worker)
                    .expect("cannot start a worker thread");
            }
        });
        self.truncated |= truncated.load(Ordering::Relaxed);
    }

    /// One unnamed case for single-shot (exhaustive, cross-run) monitors.
    pub fn once(&mut self, workload: &str, f: impl Fn(&mut Case) + Sync) {
        self.cases(workload, 1, f)
    }

    fn replay_path(&self, workload: &str, index: u64) -> String {
        format!("{}/replay/{}-{}-{}-{}.replay", self.out_dir, self.id, workload, self.seed, index)
    }

    fn replay_text(&self, workload: &str, index: u64, key: &str, msg: &str, desc: &str) -> String {
        format!("property={}\nprofile={}\ntier={}\nseed={}\nworkload={}\nindex={}\nkey={}\nmessage={}\ncase={}\n",
                self.id, self.profile, self.tier, self.seed, workload, index, key, msg, desc)
    }

    fn one_case(&self, worker: u64, workload: &str, index: u64, f: &(impl Fn(&mut Case) + Sync),
                local: &mut Totals) -> bool {
        let mut case = Case {
            rng: Rng::new(self.case_seed(workload, index)),
            index,
            thorough: self.thorough(),
            workload: workload.to_string(),
            desc: String::new(),
            sig: H0,
            nontrivial: false,
            counters: BTreeMap::new(),
            sets: BTreeMap::new(),
            maxes: BTreeMap::new(),
        };
        let path = self.replay_path(workload, index);
        let line = format!("VIOLATION property={} replay={}\n  workload {} case {}: the process aborted\n",
                           self.id, path, workload, index);
        let body = self.replay_text(workload, index, "", "the process aborted", "");
        LAST_WORDS.with(|w| *w.borrow_mut() = Some(((path + "\0").into_bytes(), body.into_bytes(), line.into_bytes())));
        running().get_or_insert_with(HashMap::new).insert(worker, Running {
            since: Instant::now(), tick: CLOCK.load(Ordering::Relaxed), workload: workload.to_string(), index });
        let r = panic::catch_unwind(AssertUnwindSafe(|| f(&mut case)));
        LAST_WORDS.with(|w| *w.borrow_mut() = None);
        let took = running().as_mut().and_then(|m| m.remove(&worker))
            .map_or(0.0, |r| r.since.elapsed().as_secs_f64());
        case.max("seconds of the longest case", (took * 10.0).round() / 10.0);
        local.evaluations += 1;
        *local.per_workload.entry(workload.to_string()).or_insert(0) += 1;
        for (k, v) in &case.counters {
            *local.counters.entry(k.to_string()).or_insert(0) += v;
        }
        for (k, v) in case.sets.iter_mut() {
            let s = local.sets.entry(k.to_string()).or_default();
            if s.len() < 2_000_000 {
                s.extend(v.drain());
            }
        }
        for (k, v) in &case.maxes {
            let e = local.maxes.entry(k.to_string()).or_insert(f64::MIN);
            if *v > *e {
                *e = *v;
            }
        }
        if case.nontrivial {
            local.nontrivial_total += 1;
            if local.sigs.len() < 4_000_000 {
                local.sigs.insert(mix(case.sig, hash_bytes(H0, case.workload.as_bytes())));
            }
        }
        if index < 2 {
            local.samples.push(format!("{}#{}: {}", workload, index, case.desc));
        }
        if let Err(p) = r {
            let (key, msg) = describe(&p);
            if let Some(k) = &key {
                if let Some((_, text)) = self.known.iter().find(|(kk, _)| kk == k) {
                    local.known.insert(k.clone(), text.clone());
                    return false;
                }
            }
            local.violations.push((workload.to_string(), index, key, msg, case.desc.clone()));
            return true;
        }
        false
    }

    fn merge(&self, l: Totals) {
        let mut t = self.t.lock().unwrap();
        t.evaluations += l.evaluations;
        t.nontrivial_total += l.nontrivial_total;
        t.sigs.extend(l.sigs);
        for (k, v) in l.counters {
            *t.counters.entry(k).or_insert(0) += v;
        }
        for (k, v) in l.sets {
            t.sets.entry(k).or_default().extend(v);
        }
        for (k, v) in l.maxes {
            let e = t.maxes.entry(k).or_insert(f64::MIN);
            if v > *e {
                *e = v;
            }
        }
        for (k, v) in l.per_workload {
            *t.per_workload.entry(k).or_insert(0) += v;
        }
        t.samples.extend(l.samples);
        t.violations.extend(l.violations);
        t.known.extend(l.known);
    }

    /// For exhaustive sweeps: points that are each a distinct case.
    pub fn add_distinct(&mut self, n: u64) {
        self.t.lock().unwrap().extra_distinct += n;
    }

    fn finish(mut self) -> i32 {
        let t = std::mem::take(&mut *self.t.lock().unwrap());
        let mut v = t.violations;
        v.sort_by(|a, b| (a.0.clone(), a.1).cmp(&(b.0.clone(), b.1)));
        if self.replay.is_some() && !self.replayed {
            eprintln!("INCONCLUSIVE: replayed workload does not exist");
            return 2;
        }
        for (_, text) in &t.known {
            println!("KNOWN-FINDING: property={} {}", self.id, text);
        }
        let mut reported = HashSet::new();
        let mut first = true;
        for (w, index, key, msg, desc) in &v {
            if !reported.insert(w.clone()) {
                continue;
            }
            let path = self.replay_path(w, *index);
            let body = self.replay_text(w, *index, &key.clone().unwrap_or_default(), msg, desc);
            let _ = std::fs::File::create(&path).and_then(|mut f| f.write_all(body.as_bytes()));
            println!("VIOLATION property={} replay={}", self.id, path);
            println!("  workload {} case {}: {}", w, index, msg);
            if !desc.is_empty() {
                let d: String = desc.chars().take(600).collect();
                println!("  case: {}", d);
            }
            first = false;
        }
        let violated = !first;
        if self.replay.is_some() {
            println!("replay: {}", if violated { "reproduced" } else { "did not reproduce" });
            return if violated { 1 } else { 0 };
        }
        let mut missing = vec![];
        if !violated && self.scale == 1.0 {
            for (name, min) in &self.required {
                let got = t.counters.get(name).copied().unwrap_or(0);
                if got < *min {
                    missing.push(format!("{}={} < {}", name, got, min));
                }
            }
        }
        let wall = self.start.elapsed().as_secs_f64();
        let distinct = t.sigs.len() as u64 + t.extra_distinct;
        if let Some(path) = self.evidence.take() {
            let mut j = String::new();
            j.push_str("{\n");
            j.push_str(&format!(" \"property\": {},\n", js(&self.id)));
            j.push_str(&format!(" \"tier\": {},\n", js(&self.tier)));
            j.push_str(&format!(" \"seed\": {},\n", self.seed));
            j.push_str(&format!(" \"level\": {},\n", js(&self.level)));
            j.push_str(" \"coverage\": {\n");
            j.push_str(&format!("  \"evaluations\": {},\n", t.evaluations + t.extra_distinct));
            j.push_str(&format!("  \"distinct_nontrivial\": {},\n", distinct));
            j.push_str(&format!("  \"rule\": {},\n", js(&self.rule)));
            j.push_str(&format!("  \"build_profile\": {},\n", js(self.profile)));
            j.push_str(&format!("  \"truncated_by_time\": {},\n", self.truncated));
            let e: Vec<String> = self.exhaustive.iter().map(|x| js(x)).collect();
            j.push_str(&format!("  \"exhausted_spaces\": [{}],\n", e.join(", ")));
            for (k, v) in &self.extra {
                j.push_str(&format!("  {}: {},\n", js(k), js(v)));
            }
            let m: Vec<String> = t.per_workload.iter().map(|(k, v)| format!("{}: {}", js(k), v)).collect();
            j.push_str(&format!("  \"cases_per_workload\": {{{}}},\n", m.join(", ")));
            let m: Vec<String> = t.counters.iter().map(|(k, v)| format!("{}: {}", js(k), v)).collect();
            j.push_str(&format!("  \"monitor_events\": {{{}}},\n", m.join(", ")));
            let m: Vec<String> = t.sets.iter().map(|(k, v)| format!("{}: {}", js(k), v.len())).collect();
            j.push_str(&format!("  \"distinct_states_seen\": {{{}}},\n", m.join(", ")));
            let m: Vec<String> = t.maxes.iter().map(|(k, v)| format!("{}: {}", js(k), v)).collect();
            j.push_str(&format!("  \"extremes_observed\": {{{}}},\n", m.join(", ")));
            let mut samples = t.samples.clone();
            samples.sort();
            let s: Vec<String> = samples.iter().take(12)
                .map(|x| js(&x.chars().take(400).collect::<String>())).collect();
            j.push_str(&format!("  \"samples\": [{}]\n", s.join(",\n   ")));
            j.push_str(" },\n");
            let a: Vec<String> = self.assumptions.iter().map(|x| js(x)).collect();
            j.push_str(&format!(" \"assumptions\": [{}],\n", a.join(",\n  ")));
            j.push_str(&format!(" \"violations\": {},\n", v.len()));
            j.push_str(&format!(" \"wall_s\": {:.3}\n}}\n", wall));
            std::fs::write(&path, j).expect("cannot write the evidence file");
        }
        if violated {
            return 1;
        }
        if !missing.is_empty() {
            println!("INCONCLUSIVE property={}: too few monitored events: {}", self.id, missing.join(", "));
            return 2;
        }
        println!("OK property={} tier={} seed={} profile={} evaluations={} distinct={} wall={:.1}s",
                 self.id, self.tier, self.seed, self.profile,
                 t.evaluations + t.extra_distinct, distinct, wall);
        0
    }
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for ch in s.chars() {
        match ch {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            ch if (ch as u32) < 32 => o.push_str(&format!("\\u{:04x}", ch as u32)),
            ch => o.push(ch),
        }
    }
    o.push('"');
    o
}

/// Far above what any case needs on the code as it should be.
const HANG_SECONDS: u64 = 600;
const MEMORY_GIGABYTES: f64 = 10.0;

/// Watches the cases from outside.  A case that never ends, or that takes all
/// the memory, is a violation by the code under test; running out of time with
/// the cases still advancing is inconclusive, never a verdict.
fn watch(r: &Runner) {
    let hard = if r.thorough() { 4 * 3600 } else { 840 };
    let (id, seed, out, tier) = (r.id.clone(), r.seed, r.out_dir.clone(), r.tier.clone());
    let (start, profile) = (r.start, r.profile);
    let hang = if r.thorough() { 6 * HANG_SECONDS } else { HANG_SECONDS };
    let mut last = Instant::now();
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(50));
        let now = CLOCK.fetch_add((last.elapsed().as_millis() as u64).min(200), Ordering::Relaxed) / 1000;
        last = Instant::now();
        let over = start.elapsed().as_secs() >= hard;
        let memory = resident_gigabytes();
        let running_now = running();
        let oldest = running_now.as_ref().and_then(|m| m.values().min_by_key(|x| x.tick));
        let what = match oldest {
            Some(x) if now.saturating_sub(x.tick / 1000) >= if over { hang / 2 } else { hang } =>
                format!("the case did not end within {} s", now.saturating_sub(x.tick / 1000)),
            Some(_) if memory > MEMORY_GIGABYTES =>
                format!("the process took {:.1} GB of memory", memory),
            _ if over => {
                println!("INCONCLUSIVE: watchdog fired after {} s", hard);
                std::process::exit(3);
            }
            _ => continue,
        };
        let x = oldest.unwrap();
        let path = format!("{}/replay/{}-{}-{}-{}.replay", out, id, x.workload, seed, x.index);
        let _ = std::fs::write(&path, format!(
            "property={}\nprofile={}\ntier={}\nseed={}\nworkload={}\nindex={}\nkey=\nmessage={}\ncase=\n",
            id, profile, tier, seed, x.workload, x.index, what));
        println!("VIOLATION property={} replay={}", id, path);
        println!("  workload {} case {}: {}", x.workload, x.index, what);
        unsafe { std::io::stdout().flush().ok(); _exit(1) }
    });
}

/// Entry point of every check binary.
pub fn check(id: &str, level: &str, rule: &str, f: impl FnOnce(&mut Runner)) -> ! {
    install_hook();
    let tier = arg("--tier").or_else(|| std::env::var("VERIF_TIER").ok()).unwrap_or("quick".into());
    let seed: u64 = arg("--seed").or_else(|| std::env::var("VERIF_SEED").ok())
        .and_then(|s| s.parse().ok()).unwrap_or(1);
    let out_dir = arg("--out").unwrap_or("/verif/.build".into());
    let mut r = Runner {
        id: id.to_string(),
        tier,
        seed,
        profile: if cfg!(debug_assertions) { "checked" } else { "rel" },
        rule: rule.to_string(),
        level: level.to_string(),
        assumptions: vec![],
        required: vec![],
        replay: None,
        replayed: false,
        known: vec![],
        start: Instant::now(),
        soft_limit: Duration::from_secs(600),
        truncated: false,
        exhaustive: vec![],
        extra: BTreeMap::new(),
        t: Mutex::new(Totals::default()),
        out_dir,
        evidence: arg("--evidence"),
        scale: arg("--scale").and_then(|s| s.parse().ok()).unwrap_or(1.0),
        skip: arg("--skip").map(|s| s.split(',').map(|w| w.to_string()).collect()).unwrap_or_default(),
    };
    if r.thorough() {
        r.soft_limit = Duration::from_secs(3600);
    }
    if let Some(a) = arg("--also").filter(|a| !a.is_empty()) {
        r.extra.insert("same_monitors_in_release_mode".to_string(), a);
    }
    if let Some(p) = arg("--known") {
        for line in std::fs::read_to_string(&p).unwrap_or_default().lines() {
            // finding: property=<id> key=<key> <text>
            let w: Vec<&str> = line.splitn(4, ' ').collect();
            if w.len() == 4 && w[0] == "finding:" && w[1] == format!("property={}", id) {
                if let Some(k) = w[2].strip_prefix("key=") {
                    r.known.push((k.to_string(), w[3].to_string()));
                }
            }
        }
    }
    if let Some(p) = arg("--replay") {
        let text = std::fs::read_to_string(&p).expect("cannot read the replay file");
        let get = |k: &str| text.lines().find_map(|l| l.strip_prefix(&format!("{}=", k)).map(|s| s.to_string()));
        r.seed = get("seed").and_then(|s| s.parse().ok()).expect("no seed in the replay file");
        r.tier = get("tier").unwrap_or("quick".into());
        let w = get("workload").expect("no workload in the replay file");
        let i = get("index").and_then(|s| s.parse().ok()).expect("no index in the replay file");
        r.replay = Some((w, i));
    }
    let _ = std::fs::create_dir_all(format!("{}/replay", r.out_dir));
    #[cfg(not(miri))]
    unsafe { signal(6, on_abort as *const () as usize); }
    if !cfg!(miri) { watch(&r); }
    let res = panic::catch_unwind(AssertUnwindSafe(|| f(&mut r)));
    if let Err(p) = res {
        let msg = describe(&p).1;
        if !msg.contains("[/repo/") {
            println!("harness error: {}", msg);
            std::process::exit(4);
        }
        // the code under test failed while the workloads were being set up
        r.replayed = true;
        r.t.lock().unwrap().violations.push(("setup".into(), 0, None, msg, String::new()));
    }
    let code = r.finish();
    std::io::stdout().flush().ok();
    std::process::exit(code)
}
