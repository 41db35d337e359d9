//! C28: no memory error and no undefined behaviour on any input. The
//! workloads of the other monitors run under AddressSanitizer,
//! MemorySanitizer, valgrind and Miri; only those tools judge here.
use std::io::{Read, Write};
use std::os::unix::process::ExitStatusExt;
use std::process::{Command, Output, Stdio};
use std::time::{Duration, Instant};
use vh::{data, ensure, Case};

/// (monitor, share of its cases in hundredths of a percent, workloads left out because single cases are long)
const PLAN: &[(&str, u32, &str)] = &[
    ("c13", 1500, "far-repeats,long-hostile"),
    ("c25", 1500, "far,long-runs"),
    ("c03", 1500, "saturating,far-repeats,long-three-way,many-contexts,very-long-runs,all-short-strings"),
    ("c04", 2000, "sampled-large-windows,default-window"),
    ("c05", 3000, "default-window,mass-removal"),
    ("c18", 1000, "saturation,long-run-then-break,far-repeats,many-contexts,very-long-runs,recorders-all-short"),
    ("c23", 2500, ""),
    ("c27", 1000, ""),
    ("c06", 5000, "huge-windows"),
    ("c01", 1500, "huge-carry-runs,long-carry-runs,endless-carry-runs,edge-pairs"),
    ("c02", 5000, ""),
    ("c08", 100, "linear,logistic"),
    ("c09", 500, ""),
    ("c10", 3000, ""),
    ("c11", 2000, ""),
    ("c12", 1000, ""),
    ("c16", 5000, ""),
    ("c17", 5000, ""),
    ("c20", 10000, ""),
    ("c07", 3000, ""),
    ("c19", 10000, ""),
    ("c22", 10000, ""),
];

/// what a sanitizer, the library's own checks of preconditions or the
/// processor say about memory; nothing else counts
fn memory_fault(text: &str, signal: Option<i32>) -> Option<String> {
    for mark in ["ERROR: AddressSanitizer", "WARNING: MemorySanitizer", "ERROR: MemorySanitizer", "WARNING: ThreadSanitizer",
                 "PRECONDITION", "error: Undefined Behavior", "ERROR SUMMARY"] {
        if let Some(at) = text.find(mark) {
            if mark == "ERROR SUMMARY" && text[at..].starts_with("ERROR SUMMARY: 0 errors") { continue; }
            let from = if mark == "ERROR SUMMARY" { 0 } else { at };
            return Some(text[from..].lines().take(14).map(|l| l.trim()).collect::<Vec<_>>().join(" | ").chars().take(1500).collect());
        }
    }
    match signal {
        Some(s @ (4 | 5 | 7 | 8 | 11)) => Some(format!("signal {}", s)),
        _ => None,
    }
}

fn options(c: &mut Command) -> &mut Command {
    c.env("ASAN_OPTIONS", "exitcode=99:detect_leaks=0:quarantine_size_mb=64:allocator_may_return_null=1:handle_abort=0")
        .env("MSAN_OPTIONS", "exit_code=99:allocator_may_return_null=1")
        .env_remove("VERIF_TIER").stdin(Stdio::null())
}

/// None when it had to be stopped: no verdict
fn limited(k: &mut Command, seconds: u64) -> Option<Output> {
    let mut child = k.stdout(Stdio::piped()).stderr(Stdio::piped()).spawn().expect("cannot start a watched program");
    let (mut o, mut e) = (child.stdout.take().unwrap(), child.stderr.take().unwrap());
    let start = Instant::now();
    let (mut out, mut err) = (vec![], vec![]);
    let status = std::thread::scope(|t| {
        t.spawn(|| o.read_to_end(&mut out));
        t.spawn(|| e.read_to_end(&mut err));
        loop {
            if let Some(s) = child.try_wait().expect("cannot wait") { return Some(s); }
            if start.elapsed().as_secs() > seconds {
                let _ = child.kill();
                let _ = child.wait();
                return None;
            }
            std::thread::sleep(Duration::from_millis(20));
        }
    });
    status.map(|status| Output { status, stdout: out, stderr: err })
}

fn evaluations(out: &str) -> u64 {
    out.split("evaluations=").nth(1).and_then(|x| x.split(' ').next()).and_then(|x| x.parse().ok()).unwrap_or(0)
}

fn sanitized(c: &mut Case, base: &str, which: &'static str, at: u64) {
    let (bin, share, skip) = PLAN[at as usize];
    let start = Instant::now();
    let seed = c.rng.u64() >> 1;
    let slow = if which == "msan" { 2 } else { 1 };
    let share = if c.thorough { (share * 4).min(10_000) } else { share } / slow;
    c.desc(format!("{} under {} with seed {}, {} of 10000 cases", bin, which, seed, share));
    c.sig_bytes(c_desc(bin, which).as_bytes());
    let scratch = std::env::temp_dir().join(format!("vh-c28-{}-{}-{}", std::process::id(), which, c.index));
    std::fs::create_dir_all(&scratch).expect("cannot create a scratch directory");
    let mut k = Command::new(format!("{}/{}/x86_64-unknown-linux-gnu/checked/{}", base, which, bin));
    if bin == "c27" { k.arg("--inner"); }
    k.args(["--seed", &seed.to_string(), "--threads", "2", "--scale", &format!("{}", share.max(1) as f64 / 10_000.0), "--skip", skip]).arg("--out").arg(&scratch);
    let o = limited(options(&mut k), if c.thorough { 3_000 } else { 400 });
    let _ = std::fs::remove_dir_all(&scratch);
    let o = match o { Some(o) => o, None => { c.count("runs stopped for time", 1); return; } };
    if std::env::var_os("HARNESS_DEBUG").is_some() { eprintln!("{} {} {:.1}", which, bin, start.elapsed().as_secs_f64()); }
    let (out, err) = (String::from_utf8_lossy(&o.stdout).to_string(), String::from_utf8_lossy(&o.stderr).to_string());
    if let Some(what) = memory_fault(&err, o.status.signal()) {
        c.fail(format!("{} under {}: {}", bin, which, what));
    }
    c.count(if which == "asan" { "cases watched by AddressSanitizer" } else { "cases watched by MemorySanitizer" }, evaluations(&out));
    // another property's verdict is not this one's
    c.count("runs that ended in another verdict", !o.status.success() as u64);
    c.nontrivial();
}

fn c_desc(bin: &str, which: &str) -> String { format!("{}-{}", bin, which) }

fn canary(c: &mut Case, base: &str) {
    c.desc("deliberate faults");
    for (which, fault) in [("asan", "overrun"), ("asan", "stale"), ("asan", "precondition"), ("msan", "unset")] {
        let mut k = Command::new(format!("{}/{}/x86_64-unknown-linux-gnu/checked/canary", base, which));
        let o = options(k.arg(fault)).output().expect("cannot start the canary");
        let e = String::from_utf8_lossy(&o.stderr).to_string();
        if memory_fault(&e.replace("unsafe precondition", "PRECONDITION"), o.status.signal()).is_some() {
            c.count("deliberate faults reported", 1);
        } else {
            println!("not reported: {} {} {}", which, fault, e);
        }
    }
}

fn under_valgrind(c: &mut Case, base: &str, which: u64) {
    let len = c.rng.log_uniform(if c.thorough { 1_500 } else { 300 }) as usize;
    let (k, v) = if c.rng.bool() { data::hostile(&mut c.rng, len) } else { data::any(len, &mut c.rng) };
    let f = std::env::temp_dir().join(format!("vh-c28-{}-{}", std::process::id(), c.index));
    std::fs::File::create(&f).and_then(|mut x| x.write_all(&v)).expect("cannot write a scratch file");
    let (name, args): (&str, Vec<&str>) = match which % 4 { 1 => ("print_histories", vec!["tree"]), 2 => ("print_histories", vec!["fat_map"]),
        3 => ("print_histories", vec!["brute_force"]), _ => ("demixer", vec![]) };
    c.desc(format!("{} {:?} under valgrind on {} bytes ({}): {}", name, args, v.len(), k, data::hex(&v[..v.len().min(100)])));
    c.sig_bytes(&v); c.sig(which % 4);
    let o = limited(Command::new("valgrind").args(["-q", "--error-exitcode=99", "--leak-check=no", "--track-origins=no"])
        .arg(format!("{}/cli/release/{}", base, name)).args(&args).arg(&f)
        .stdin(Stdio::null()), 400);
    let _ = std::fs::remove_file(&f);
    let o = match o { Some(o) => o, None => { c.count("runs stopped for time", 1); return; } };
    let e = String::from_utf8_lossy(&o.stderr).to_string();
    ensure!(c, o.status.code() != Some(99), "{} {:?}: {}", name, args, e.chars().filter(|x| *x != '\n').take(1500).collect::<String>());
    if o.status.success() { c.count("program runs watched by valgrind", 1); }
    c.nontrivial();
}

fn interpreted(c: &mut Case, base: &str, mode: &str, n: u64) {
    let v = std::env::var("V").unwrap_or("/verif".into());
    let seed = c.rng.u64() >> 1;
    c.desc(format!("{} {} rounds with seed {} under Miri", mode, n, seed));
    c.sig(seed);
    let mut k = Command::new("cargo");
    k.args(["miri", "run", "-q", "--offline", "--locked", "--bin", "interp", "--", mode, &n.to_string(), &seed.to_string()])
        .current_dir(format!("{}/harness", v)).env("RUSTUP_TOOLCHAIN", "nightly").env("CARGO_TARGET_DIR", format!("{}/miri", base))
        .env("XDG_CACHE_HOME", format!("{}/cache", base))
        .env("MIRIFLAGS", match (mode, c.thorough, c.index % 2) {
            // making all tables takes minutes: without the aliasing model and the check of every value
            ("all", ..) | ("most", false, _) => "-Zmiri-disable-isolation -Zmiri-disable-validation -Zmiri-disable-stacked-borrows",
            (_, _, 0) => "-Zmiri-disable-isolation",
            _ => "-Zmiri-disable-isolation -Zmiri-tree-borrows",
        }).stdin(Stdio::null());
    let start = Instant::now();
    let o = match limited(&mut k, if c.thorough { 3_000 } else { 400 }) { Some(o) => o, None => { c.count("runs stopped for time", 1); return; } };
    if std::env::var_os("HARNESS_DEBUG").is_some() { eprintln!("miri {} {:.1}", mode, start.elapsed().as_secs_f64()); }
    let e = String::from_utf8_lossy(&o.stderr).to_string();
    if let Some(what) = memory_fault(&e, None) {
        c.fail(format!("under Miri: {}", what));
    }
    let out = String::from_utf8_lossy(&o.stdout).to_string();
    c.count("steps interpreted by Miri", out.split("interpreted=").nth(1).and_then(|x| x.split(' ').next()).and_then(|x| x.parse().ok()).unwrap_or(0));
    c.nontrivial();
}

fn main() {
    let base = std::env::var("B").unwrap_or("/verif/.build".into());
    vh::check("C28", "exploration",
        "case = one run of a monitor's workloads, or of a program, under a sanitizer; distinct by monitor, sanitizer and input",
        |r| {
            r.cases("canary", 1, |c| canary(c, &base));
            // one list, what takes longest first, so that no tool waits for another
            let (miri, plan, programs) = (r.n(8, 24), PLAN.len() as u64, r.n(32, 200));
            r.cases("watched", miri + 2 * plan + programs, |c| match c.index {
                0 | 1 => interpreted(c, &base, "most", 7),
                2 => interpreted(c, &base, "tables", 0),
                i if i < miri => interpreted(c, &base, "free", if c.thorough { 100 } else { 24 }),
                i if i < miri + 2 * plan => {
                    let k = i - miri;
                    sanitized(c, &base, if k % 2 == 0 { "asan" } else { "msan" }, k / 2)
                }
                i => under_valgrind(c, &base, i),
            });
            if r.thorough() {
                r.cases("miri-everything", 6, |c| if c.index == 0 { interpreted(c, &base, "all", 1) } else { interpreted(c, &base, "most", 60) });
            }
            r.require("steps interpreted by Miri", 5_000);
            r.require("deliberate faults reported", 4);
            r.require("cases watched by AddressSanitizer", 10_000);
            r.require("cases watched by MemorySanitizer", 5_000);
            r.require("program runs watched by valgrind", 20);
            r.assume("a violation here is a report of AddressSanitizer, MemorySanitizer, valgrind, the standard library's own checks of unsafe preconditions, or a fault of the processor; verdicts about other properties are left to their checks");
        });
}
