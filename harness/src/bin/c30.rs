//! C30: results do not depend on the platform. The same work is done here
//! (64-bit, little endian), on WebAssembly (32-bit) and, interpreted, on a
//! big-endian machine; the digests of everything it showed are compared.
#[path = "../dx/portable.rs"]
#[allow(dead_code)]
mod portable;
use demixer::lut::LookUpTables;
use portable::{free, name, work, FREE, WORKS};
use std::cell::RefCell;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use vh::{ensure, Case};

/// a process that runs the 32-bit build
struct Other { child: Child, to: ChildStdin, from: BufReader<ChildStdout> }
impl Drop for Other { fn drop(&mut self) { let _ = self.child.kill(); let _ = self.child.wait(); } }
thread_local! { static OTHERS: RefCell<[Option<Other>; 2]> = const { RefCell::new([None, None]) }; }
const PROFILES: [&str; 2] = ["checked", "rel"];

fn ask(base: &str, profile: usize, line: &str) -> String {
    OTHERS.with(|o| {
        let o = &mut o.borrow_mut()[profile];
        let x = o.get_or_insert_with(|| {
            let v = std::env::var("V").unwrap_or("/verif".into());
            let mut child = Command::new("node").arg("--stack-size=4000").arg(format!("{}/harness-wasm/run.js", v))
                .arg(format!("{}/wasm/wasm32-unknown-unknown/{}/vhw.wasm", base, PROFILES[profile]))
                .stdin(Stdio::piped()).stdout(Stdio::piped()).spawn().expect("cannot start node");
            let (to, from) = (child.stdin.take().unwrap(), BufReader::new(child.stdout.take().unwrap()));
            Other { child, to, from }
        });
        let mut answer = String::new();
        let ok = writeln!(x.to, "{}", line).is_ok() && x.from.read_line(&mut answer).is_ok();
        if !ok || answer.is_empty() {
            *o = None;
            return "no answer".into();
        }
        answer.trim_end().to_string()
    })
}

fn narrow(c: &mut Case, l: &LookUpTables, base: &str, big: bool) {
    let kind = c.index % WORKS;
    let profile = (c.index / WORKS % 2) as usize;
    let most = match (kind, big) {
        (0, false) => 3_000, (11, false) => 30_000, (3, _) => 1_200, (16, false) => 40_000, (_, false) => 8_000,
        (0, true) | (11, true) => if c.thorough { 400_000 } else { 120_000 }, (16, true) => 800_000, (_, true) => 50_000,
    };
    let steps = if big { most / 2 + c.rng.below(most / 2) } else { c.rng.log_uniform(most) };
    let seed = c.rng.u64();
    c.desc(format!("{}, seed {:x}, {} steps, 32-bit build '{}'", name(kind), seed, steps, PROFILES[profile]));
    c.sig(seed); c.sig(kind << 40 | steps);
    let here = c.guarded("the work on this platform", || work(l, kind, seed, steps));
    let there = ask(base, profile, &format!("{} {} {}", kind, seed, steps));
    // a node that could not be started or was ended from outside says nothing
    if there == "no answer" { c.count("32-bit runs without an answer", 1); return; }
    ensure!(c, there == format!("digest {:016x}", here), "{}: with 64-bit sizes the digest of everything shown is {:016x}, with 32-bit sizes: {}", name(kind), here, there);
    c.count("steps compared with the 32-bit platform", steps);
    c.count(match kind { 0 | 11 => "bits predicted on the 32-bit platform", 1..=3 | 16 => "bits entered into sources on the 32-bit platform", _ => "other steps on the 32-bit platform" }, steps);
    c.nontrivial();
}

fn canary(c: &mut Case, base: &str) {
    c.desc("the monitor sees a result that depends on the width of addresses");
    for p in 0..2 {
        let hello = ask(base, p, "hello");
        let there = ask(base, p, "canary 68719476736");
        if hello == "no answer" || there == "no answer" { return; }
        ensure!(c, hello == "bits 32", "making the lookup tables with 32-bit sizes: {}", hello);
        let here = format!("digest {:016x}", (68719476736u64 as usize) << 20 >> 20);
        ensure!(c, there != here, "a deliberate difference was not seen");
        c.count("deliberate differences seen", 1);
    }
    c.nontrivial();
}

/// one interpreter run does many pieces of work
fn swapped(c: &mut Case, base: &str, each: u64) {
    let v = std::env::var("V").unwrap_or("/verif".into());
    let mut wanted = vec![];
    let mut args = vec![];
    let mut steps = 0;
    for k in 0..each {
        let kind = FREE[((c.index * each + k) % FREE.len() as u64) as usize];
        let (seed, n) = (c.rng.u64(), c.rng.log_uniform(if c.thorough { 2_500 } else { 700 }));
        wanted.push((kind, n, c.guarded("the work on this platform", || free(kind, seed, n))));
        args.extend([kind.to_string(), seed.to_string(), n.to_string()]);
        steps += n;
        c.sig(seed);
    }
    c.desc(format!("{} pieces of work, {} steps, on a big-endian machine: {}", each, steps, args.join(" ")));
    let o = Command::new("cargo").args(["miri", "run", "-q", "--offline", "--locked", "--target", "s390x-unknown-linux-gnu", "--bin", "interp", "--", "digest"]).args(&args)
        .current_dir(format!("{}/harness", v)).env("RUSTUP_TOOLCHAIN", "nightly").env("CARGO_TARGET_DIR", format!("{}/miri", base))
        .env("XDG_CACHE_HOME", format!("{}/cache", base)).env_remove("RUSTC_WRAPPER")
        .env("MIRIFLAGS", "-Zmiri-disable-isolation -Zmiri-disable-stacked-borrows -Zmiri-disable-validation")
        .stdin(Stdio::null()).output().expect("cannot start cargo");
    let (out, err) = (String::from_utf8_lossy(&o.stdout).to_string(), String::from_utf8_lossy(&o.stderr).to_string());
    if !o.status.success() && !err.contains("panicked at") && !err.contains("Undefined Behavior") {
        c.count("interpreter runs that failed to start", 1);
        return;
    }
    let got: Vec<&str> = out.lines().filter(|x| x.starts_with("digest ")).collect();
    for (i, (kind, n, want)) in wanted.iter().enumerate() {
        let there = got.get(i).copied().unwrap_or("none, it failed");
        ensure!(c, there == format!("digest {:016x}", want), "{}, {} steps: the digest of everything shown is {:016x} on a little-endian machine, on a big-endian one: {} {}",
            name(*kind), n, want, there, err.lines().filter(|x| x.contains("panicked") || x.contains("error")).take(3).collect::<Vec<_>>().join(" "));
    }
    c.count("steps compared with the big-endian platform", steps);
    c.nontrivial();
}

fn main() {
    let base = std::env::var("B").unwrap_or("/verif/.build".into());
    vh::check("C30", "exploration",
        "case = one piece of work, done here and on another platform; non-trivial when both did it; distinct by kind, seed and length",
        |r| {
            let luts = LookUpTables::new();
            let l = &luts;
            r.cases("canary", 1, |c| canary(c, &base));
            let n = r.n(16, 160);
            r.cases("big-endian", n, |c| swapped(c, &base, 12));
            let n = r.n(34 * 2, 34 * 30);
            r.cases("narrow-long", n, |c| narrow(c, l, &base, true));
            let n = r.n(34 * 60, 34 * 2_000);
            r.cases("narrow", n, |c| narrow(c, l, &base, false));
            r.require("deliberate differences seen", 2);
            r.require("steps compared with the 32-bit platform", 1_500_000);
            r.require("bits predicted on the 32-bit platform", 100_000);
            r.require("bits entered into sources on the 32-bit platform", 500_000);
            r.require("steps compared with the big-endian platform", 10_000);
            r.assume("the 32-bit platform is WebAssembly under node, built with the standard library from source; the big-endian one is s390x under Miri, without the parts that need the large tables");
        });
}
