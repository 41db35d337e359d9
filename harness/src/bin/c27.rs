//! C27: instances do not influence each other: not through shared tables, not
//! across threads, not after one of them failed, not across processes.
//! The workloads up to "failed-neighbour" are also run under ThreadSanitizer.
#[path = "../dx/mix.rs"]
mod mixed;
use demixer::lut::LookUpTables;
use mixed::*;
use std::io::Write;
use std::path::Path;
use std::process::{Command, Stdio};
use std::sync::Barrier;
use vh::{ensure, mix, Case, Rng, H0};

/// The tables are offered to several threads whatever the compiler thinks of
/// them: whether that is sound is what is being watched.
struct Offered<'a>(&'a LookUpTables);
impl<'a> Offered<'a> {
    fn get(&self) -> &'a LookUpTables { self.0 }
}
unsafe impl<'a> Sync for Offered<'a> {}
unsafe impl<'a> Send for Offered<'a> {}

fn specs(c: &mut Case, from: u64, to: u64, max: u64) -> Vec<Spec> {
    let n = from + c.rng.below(to - from + 1);
    // often several of one kind: they would share whatever can be shared
    let same = if c.rng.bool() { Some(c.rng.below(KINDS)) } else { None };
    let v: Vec<Spec> = (0..n).map(|_| {
        let mut s = spec(&mut c.rng, max);
        if let Some(k) = same {
            s.kind = k;
            if k == 3 { s.steps = s.steps.min(600); }
        }
        s
    }).collect();
    c.desc(format!("{:?}", v.iter().map(|s| format!("{} x{} ({:x})", NAMES[s.kind as usize], s.steps, s.seed)).collect::<Vec<_>>()));
    for s in &v { c.sig(mix(s.seed, s.kind)); }
    c.nontrivial();
    v
}

fn alone(c: &Case, v: &[Spec], l: &LookUpTables) -> Vec<u64> {
    v.iter().map(|s| c.guarded(NAMES[s.kind as usize], || whole(*s, l))).collect()
}

fn compare(c: &mut Case, v: &[Spec], want: &[u64], got: &[u64], how: &str) {
    for ((s, w), g) in v.iter().zip(want).zip(got) {
        ensure!(c, w == g, "{} (seed {:x}, {} steps) behaves differently {} than alone", NAMES[s.kind as usize], s.seed, s.steps, how);
    }
    c.count("instances compared with themselves alone", v.len() as u64);
    c.count("steps compared", v.iter().map(|s| s.steps as u64).sum());
}

fn interleaved(c: &mut Case, l: &LookUpTables, neighbour_fails: bool) {
    let v = specs(c, 2, 6, 1_500);
    let want = alone(c, &v, l);
    let mut live: Vec<Option<Box<dyn Instance + '_>>> = v.iter().map(|_| None).collect();
    let mut done = vec![0usize; v.len()];
    let mut h = vec![H0; v.len()];
    let mut ended = vec![false; v.len()];
    let mut switches = 0;
    while ended.iter().any(|e| !e) {
        let i = loop {
            let i = c.rng.below(v.len() as u64) as usize;
            if !ended[i] { break i; }
        };
        switches += 1;
        let s = v[i];
        if live[i].is_none() {
            live[i] = Some(c.guarded(NAMES[s.kind as usize], || make(s, l)));
        }
        let burst = if c.rng.chance(0.7) { 1 } else { c.rng.log_uniform(200) as usize };
        let x = live[i].as_mut().unwrap();
        for _ in 0..burst.min(s.steps - done[i]) {
            let d = c.guarded(NAMES[s.kind as usize], || x.step());
            h[i] = mix(h[i], d);
            done[i] += 1;
        }
        if done[i] == s.steps {
            let x = live[i].take().unwrap();
            h[i] = mix(h[i], c.guarded(NAMES[s.kind as usize], || x.end()));
            ended[i] = true;
        }
        if neighbour_fails && c.rng.chance(0.02) {
            let mut bad = spec(&mut c.rng, 60);
            if c.rng.bool() { bad.kind = s.kind; }
            let r = vh::caught(|| {
                let mut x = make(bad, l);
                for _ in 0..bad.steps { x.step(); }
                x.abuse();
            });
            c.count("neighbours that failed", r.is_err() as u64);
        }
    }
    c.count("switches between instances", switches);
    compare(c, &v, &want, &h, if neighbour_fails { "next to failing instances" } else { "interleaved with others" });
}

fn threads(c: &mut Case, l: &LookUpTables, own_tables: bool) {
    let v = specs(c, 2, 6, if own_tables { 300 } else { 2_500 });
    let want = alone(c, &v, l);
    let gate = Barrier::new(v.len());
    let shared = Offered(l);
    let (gate, shared) = (&gate, &shared);
    let yields = c.rng.chance(0.5);
    let got: Vec<Result<u64, String>> = std::thread::scope(|t| {
        let h: Vec<_> = v.iter().map(|s| t.spawn(move || {
            gate.wait();
            vh::caught(|| {
                let own;
                let l = if own_tables { own = LookUpTables::new(); &own } else { shared.get() };
                let mut x = make(*s, l);
                let mut h = H0;
                let mut r = Rng::new(s.seed ^ 1);
                for _ in 0..s.steps {
                    h = mix(h, x.step());
                    if yields && r.chance(0.02) { std::thread::yield_now(); }
                }
                mix(h, x.end())
            })
        })).collect();
        h.into_iter().map(|x| x.join().unwrap()).collect()
    });
    let mut ok = vec![];
    for (s, g) in v.iter().zip(got) {
        match g {
            Ok(h) => ok.push(h),
            Err(e) => c.fail(format!("{} (seed {:x}) failed while others ran on other threads: {}", NAMES[s.kind as usize], s.seed, e)),
        }
    }
    c.count("instances run at the same time on several threads", v.len() as u64);
    compare(c, &v, &want, &ok, "while others run on other threads");
}

fn processes(c: &mut Case, l: &LookUpTables) {
    let v = specs(c, 20, 30, 400);
    let want = alone(c, &v, l);
    let mut child = Command::new(std::env::current_exe().unwrap()).arg("--solo")
        .env_clear().env("VH_FILLER", "x".repeat(c.rng.usize(0, 4000))).current_dir("/")
        .stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().expect("cannot start the child");
    let text: String = v.iter().rev().map(|s| format!("{} {} {}\n", s.kind, s.seed, s.steps)).collect();
    child.stdin.take().unwrap().write_all(text.as_bytes()).expect("cannot feed the child");
    let o = child.wait_with_output().expect("no child");
    ensure!(c, o.status.success(), "instances that work in this process failed in a fresh one");
    let mut got: Vec<u64> = String::from_utf8_lossy(&o.stdout).lines().map(|x| x.parse().unwrap()).collect();
    got.reverse();
    c.count("instances compared with a fresh process", v.len() as u64);
    compare(c, &v, &want, &got, "in a fresh process");
}

fn solo() -> ! {
    let l = LookUpTables::new();
    let mut out = String::new();
    for line in std::io::stdin().lines().map(|x| x.unwrap()) {
        let w: Vec<u64> = line.split(' ').map(|x| x.parse().unwrap()).collect();
        out += &format!("{}\n", whole(Spec { kind: w[0], seed: w[1], steps: w[2] as usize }, &l));
    }
    print!("{}", out);
    std::process::exit(0)
}

/// this same program, built with ThreadSanitizer
fn races(c: &mut Case, base: &str, tsan: bool) {
    let dir = format!("{}/tsan/x86_64-unknown-linux-gnu/checked", base);
    if !tsan {
        // the sanitizer itself, on a race put there on purpose
        let o = Command::new(format!("{}/canary", dir)).arg("race").env("TSAN_OPTIONS", "exitcode=66").stdin(Stdio::null()).output().expect("cannot start the canary");
        let e = String::from_utf8_lossy(&o.stderr).to_string();
        if e.contains("WARNING: ThreadSanitizer: data race") { c.count("deliberate races reported by the sanitizer", 1); }
        return;
    }
    let seed = c.rng.u64() >> 1;
    c.desc(format!("ThreadSanitizer run with seed {}", seed));
    c.sig(seed);
    let scratch = std::env::temp_dir().join(format!("vh-c27-{}-{}", std::process::id(), c.index));
    std::fs::create_dir_all(&scratch).expect("cannot create a scratch directory");
    let o = Command::new(format!("{}/c27", dir)).args(["--inner", "--seed", &seed.to_string(), "--scale", if c.thorough { "0.2" } else { "0.02" }])
        .arg("--out").arg(&scratch)
        .env("TSAN_OPTIONS", "exitcode=66 halt_on_error=1").env_remove("VERIF_TIER").stdin(Stdio::null()).output().expect("cannot start the sanitized program");
    let _ = std::fs::remove_dir_all(&scratch);
    let e = String::from_utf8_lossy(&o.stderr).to_string();
    if let Some(at) = e.find("ThreadSanitizer:") {
        let what: String = e[at..].lines().take(12).map(|l| l.trim()).collect::<Vec<_>>().join(" | ");
        c.fail(format!("unsynchronized sharing between threads: {}", what));
    }
    let out = String::from_utf8_lossy(&o.stdout).to_string();
    ensure!(c, !out.contains("VIOLATION"), "under ThreadSanitizer: {}", out);
    if o.status.success() {
        let n = out.split("evaluations=").nth(1).and_then(|x| x.split(' ').next()).and_then(|x| x.parse().ok()).unwrap_or(0u64);
        c.count("cases watched by ThreadSanitizer", n);
    }
    c.nontrivial();
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.get(1).map_or(false, |x| x == "--solo") { solo(); }
    let inner = a.iter().any(|x| x == "--inner");
    let base = std::env::var("B").unwrap_or("/verif/.build".into());
    vh::check("C27", "exploration",
        "case = a group of instances run alone and again interleaved, on threads, next to failing ones or in a fresh process; distinct by kinds and seeds",
        |r| {
            let luts = LookUpTables::new();
            let l = Offered(&luts);
            let l = &l;
            let n = r.n(2_000, 20_000);
            r.cases("interleaved", n, |c| interleaved(c, l.get(), false));
            let n = r.n(3_000, 20_000);
            r.cases("failed-neighbour", n, |c| interleaved(c, l.get(), true));
            let n = r.n(2_500, 25_000);
            r.cases("threads", n, |c| threads(c, l.get(), false));
            let n = r.n(60, 1_500);
            r.cases("own-tables", n, |c| threads(c, l.get(), true));
            if inner { return; }
            let n = r.n(60, 1_200);
            r.cases("processes", n, |c| processes(c, l.get()));
            if Path::new(&format!("{}/tsan", base)).exists() {
                r.cases("canary", 1, |c| races(c, &base, false));
                let n = r.n(4, 12);
                r.cases("thread-sanitizer", n, |c| races(c, &base, true));
            }
            r.require("deliberate races reported by the sanitizer", 1);
            r.require("cases watched by ThreadSanitizer", 100);
            r.require("neighbours that failed", 100);
            r.require("instances compared with themselves alone", 5_000);
            r.require("instances compared with a fresh process", 1_000);
            r.assume("ThreadSanitizer (nightly compiler, instrumented standard library) watches the same groups at a reduced count");
        });
}
