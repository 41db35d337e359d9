//! C26: failures of the underlying input or output are never swallowed.
//! Faults are injected into the reader and writer of the coder, and (with a
//! preloaded shim) into the system calls of the command-line programs.
#[path = "../dx/coder.rs"]
#[allow(dead_code)]
mod coder;
use coder::*;
use demixer::bit::Bit;
use demixer::coding::decoder::Decoder;
use demixer::coding::encoder::Encoder;
use std::cell::Cell;
use std::io::{self, ErrorKind, Read, Write};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use vh::{data, ensure, Case, Rng};

#[derive(Clone, Copy, Debug, PartialEq)]
enum Fault { Error(ErrorKind), Nothing }

const KINDS: [ErrorKind; 9] = [ErrorKind::Other, ErrorKind::BrokenPipe, ErrorKind::WouldBlock, ErrorKind::TimedOut,
    ErrorKind::PermissionDenied, ErrorKind::UnexpectedEof, ErrorKind::WriteZero, ErrorKind::InvalidData, ErrorKind::ConnectionReset];

fn fault(r: &mut Rng) -> Fault {
    if r.chance(0.15) { Fault::Nothing } else { Fault::Error(*r.pick(&KINDS)) }
}

/// accepts everything but the call in which byte `at` would be written; that
/// one fails, and (unless `forever`) only once
struct FaultyWriter<'a> {
    ok: Vec<u8>,
    at: usize,
    fault: Fault,
    forever: bool,
    failed: &'a Cell<u64>,
    noise: Option<Rng>,
}
impl<'a> Write for FaultyWriter<'a> {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        if let Some(r) = self.noise.as_mut() {
            if r.chance(0.3) {
                return Err(io::Error::new(ErrorKind::Interrupted, "interrupted"));
            }
        }
        if self.ok.len() >= self.at && (self.forever || self.failed.get() == 0) && !buf.is_empty() {
            self.failed.set(self.failed.get() + 1);
            return match self.fault {
                Fault::Error(k) => Err(io::Error::new(k, "injected")),
                Fault::Nothing => Ok(0),
            };
        }
        let n = if self.failed.get() == 0 { buf.len().min(self.at.saturating_sub(self.ok.len()).max(1)) } else { buf.len() };
        if self.failed.get() == 0 { self.ok.extend_from_slice(&buf[..n]); }
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

struct FaultyReader<'a> {
    data: &'a [u8],
    pos: usize,
    at: usize,
    fault: Fault,
    failed: &'a Cell<u64>,
    noise: Option<Rng>,
}
impl<'a> Read for FaultyReader<'a> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if let Some(r) = self.noise.as_mut() {
            if r.chance(0.3) {
                return Err(io::Error::new(ErrorKind::Interrupted, "interrupted"));
            }
        }
        if buf.is_empty() { return Ok(0); }
        if self.pos >= self.at && self.failed.get() == 0 {
            // fails once, then goes on as if nothing had happened
            self.failed.set(1);
            return match self.fault {
                Fault::Error(k) => Err(io::Error::new(k, "injected")),
                Fault::Nothing => Ok(0),
            };
        }
        let n = buf.len().min(self.data.len() - self.pos).min(if self.failed.get() == 0 { self.at - self.pos } else { usize::MAX });
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

fn feed(e: &mut Encoder, v: &[Ev], done: &Cell<usize>) {
    for ev in v {
        match *ev {
            Ev::Bit(p, b) => e.encode_bit(prob(p), Bit::from(b)),
            Ev::Rare(b) => e.encode_rare_event(b),
        }
        done.set(done.get() + 1);
    }
}

fn some_script(r: &mut Rng, max: u64) -> (String, Vec<Ev>) {
    if r.bool() { script(r, max) } else { boundary_script(r, max) }
}

fn writing(c: &mut Case) {
    let (d, v) = some_script(&mut c.rng, 800);
    let mut whole = vec![];
    encode(c, &v, &mut whole, None);
    c.sig_bytes(&whole);
    if !v.is_empty() { c.nontrivial(); }
    let spots: Vec<usize> = if whole.len() <= 12 { (0..whole.len()).collect() } else {
        let mut s = vec![0, 1, whole.len() - 1, whole.len() - 2, whole.len() - 5, whole.len() - 6];
        for _ in 0..4 { s.push(c.rng.usize(0, whole.len() - 1)); }
        s
    };
    for at in spots {
        let f = fault(&mut c.rng);
        c.desc(format!("writing {} bytes, {:?} at byte {}; {}", whole.len(), f, at, d));
        let failed = Cell::new(0);
        let done = Cell::new(0);
        let mut w = FaultyWriter { ok: vec![], at, fault: f, forever: false, failed: &failed,
            noise: if c.rng.chance(0.3) { Some(c.rng.clone()) } else { None } };
        let r = vh::caught(|| {
            let mut e = Encoder::new(&mut w);
            feed(&mut e, &v, &done);
            drop(e);
        });
        ensure!(c, failed.get() > 0, "byte {} of {} was never offered to the writer", at, whole.len());
        ensure!(c, r.is_err(), "byte {} of {} could not be written and nobody was told ({} of {} events coded)", at, whole.len(), done.get(), v.len());
        ensure!(c, w.ok[..] == whole[..at], "{} bytes were written before the failure, not those of the stream", w.ok.len());
        c.count("write failures reported", 1);
        c.count("write failures reported while finishing", (done.get() == v.len()) as u64);
    }
}

fn reading(c: &mut Case) {
    let (d, v) = some_script(&mut c.rng, 800);
    let mut whole = vec![];
    encode(c, &v, &mut whole, None);
    c.sig_bytes(&whole);
    if !v.is_empty() { c.nontrivial(); }
    let spots: Vec<usize> = if whole.len() <= 12 { (0..whole.len()).collect() } else {
        let mut s = vec![0, 3, 4, whole.len() - 1, whole.len() - 2];
        for _ in 0..4 { s.push(c.rng.usize(0, whole.len() - 1)); }
        s
    };
    for at in spots {
        let f = fault(&mut c.rng);
        c.desc(format!("reading {} bytes, {:?} at byte {}; {}", whole.len(), f, at, d));
        let failed = Cell::new(0);
        let mut rd = FaultyReader { data: &whole, pos: 0, at, fault: f, failed: &failed,
            noise: if c.rng.chance(0.3) { Some(c.rng.clone()) } else { None } };
        let wrong = Cell::new(None);
        let done = Cell::new(0usize);
        let after = Cell::new(0u64);
        let r = vh::caught(|| {
            let mut dec = Decoder::new(&mut rd);
            for (i, ev) in v.iter().enumerate() {
                let ok = match *ev {
                    Ev::Bit(p, b) => dec.decode_bit(prob(p)).is_1() == b,
                    Ev::Rare(b) => dec.decode_rare_event() == b,
                };
                if failed.get() > 0 { after.set(after.get() + 1); }
                if !ok && wrong.get().is_none() { wrong.set(Some(i)); }
                done.set(i + 1);
            }
        });
        ensure!(c, wrong.get().is_none(), "event {:?} was misread", wrong.get());
        ensure!(c, failed.get() > 0, "byte {} of {} was never read", at, whole.len());
        ensure!(c, r.is_err() && after.get() == 0, "byte {} of {} could not be read and nobody was told ({} of {} events decoded)", at, whole.len(), done.get(), v.len());
        c.count("read failures reported", 1);
        c.count("read failures reported while starting", (done.get() == 0) as u64);
    }
}

/// a writer that never recovers: the process must not end successfully
fn broken_writer_child(seed: u64) -> ! {
    let mut r = Rng::new(seed);
    let (_, v) = some_script(&mut r, 300);
    let failed = Cell::new(0);
    // every stream has at least the four bytes that the decoder starts with
    let at = if r.bool() { 0 } else { r.usize(0, 3) };
    let mut w = FaultyWriter { ok: vec![], at, fault: fault(&mut r), forever: true, failed: &failed, noise: None };
    let done = Cell::new(0);
    {
        let mut e = Encoder::new(&mut w);
        feed(&mut e, &v, &done);
    }
    println!("finished");
    std::process::exit(0)
}

struct Cli { dir: PathBuf, shim: PathBuf, scratch: PathBuf }

struct Ran { ok: bool, out: String, log: String }

impl Cli {
    fn run(&self, id: u64, name: &str, args: &[&str], file: &Path, read: &str, write: &str) -> Ran {
        let log = self.scratch.join(format!("log-{}-{:x}", std::process::id(), id));
        let _ = std::fs::remove_file(&log);
        let o = Command::new(self.dir.join(name)).args(args)
            .env("LD_PRELOAD", &self.shim).env("VH_FILE", file).env("VH_READ", read).env("VH_WRITE", write).env("VH_LOG", &log)
            .stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::null()).output().expect("cannot start the program");
        let l = std::fs::read_to_string(&log).unwrap_or_default();
        let _ = std::fs::remove_file(&log);
        Ran { ok: o.status.success(), out: String::from_utf8_lossy(&o.stdout).to_string(), log: l }
    }
}

/// what does not depend on the time a run took
fn stable(text: &str) -> Vec<String> {
    text.lines().filter(|l| !l.starts_with("initialization") && !l.starts_with("total duration") && !l.starts_with("speed"))
        .map(|l| l.to_string()).collect()
}

fn plan(r: &mut Rng, steps: usize, error_at: Option<usize>, errnos: &[i32]) -> String {
    let mut v = vec![];
    for i in 0..steps {
        if Some(i) == error_at { v.push(format!("e{}", r.pick(errnos))); break; }
        v.push(match r.below(4) {
            0 => "i".to_string(),
            1 => "n".to_string(),
            _ => format!("s{}", r.log_uniform(900)),
        });
    }
    v.join(",")
}

fn programs(c: &mut Case, cli: &Cli) {
    let len = c.rng.log_uniform(3_000) as usize;
    let (k, v) = data::any(len, &mut c.rng);
    let id = vh::mix(c.index, vh::hash_bytes(26, &v));
    let file = cli.scratch.join(format!("in-{}-{:x}", std::process::id(), id));
    std::fs::write(&file, &v).expect("cannot write a scratch file");
    let file = std::fs::canonicalize(&file).expect("no scratch file");
    let path = file.to_str().unwrap().to_string();
    let which = *c.rng.pick(&["demixer", "demixer", "brute_force", "fat_map", "tree"]);
    let (name, args): (&str, Vec<&str>) = if which == "demixer" { ("demixer", vec![&path]) } else { ("print_histories", vec![which, &path]) };
    c.sig_bytes(&v); c.sig_bytes(which.as_bytes());
    c.nontrivial();
    let plain = cli.run(id, name, &args, &file, "", "");
    c.desc(format!("{} on {} bytes ({})", which, v.len(), k));
    ensure!(c, plain.ok && plain.log.is_empty(), "{} failed without any fault", which);

    let steps = c.rng.usize(1, 60);
    let (rp, wp) = (plan(&mut c.rng, steps, None, &[]), plan(&mut c.rng, steps, None, &[]));
    let got = cli.run(id, name, &args, &file, &rp, &wp);
    c.desc(format!("{} on {} bytes ({}), reads {} writes {}", which, v.len(), k, rp, wp));
    ensure!(c, got.ok, "{} failed although its input and output were only slow and interrupted", which);
    ensure!(c, stable(&got.out) == stable(&plain.out), "{} printed something else when its input and output were slow and interrupted", which);
    c.count("short or interrupted system calls", got.log.len() as u64);

    // a read error
    let at = c.rng.log_uniform(12) as usize - 1;
    let rp = plan(&mut c.rng, at + 1, Some(at), &[5, 5, 11, 9, 21, 116]);
    let got = cli.run(id, name, &args, &file, &rp, "");
    c.desc(format!("{} on {} bytes ({}), reads {}", which, v.len(), k, rp));
    if got.log.contains('e') {
        ensure!(c, !got.ok, "{} could not read its input and reported success", which);
        ensure!(c, !got.out.contains("input length"), "{} could not read its input and reported totals: {}", which, got.out);
        c.count("read errors in programs reported", 1);
    }
    // a write error (EBADF, a closed standard output, is not counted as one)
    let at = c.rng.log_uniform(30) as usize - 1;
    let wp = plan(&mut c.rng, at + 1, Some(at), &[5, 28, 32, 11, 27]);
    let got = cli.run(id, name, &args, &file, "", &wp);
    c.desc(format!("{} on {} bytes ({}), writes {}", which, v.len(), k, wp));
    if got.log.contains('E') {
        ensure!(c, !got.ok, "{} could not write its results and reported success", which);
        c.count("write errors in programs reported", 1);
    }
    let _ = std::fs::remove_file(&file);
}

fn full_device(c: &mut Case, cli: &Cli) {
    c.desc("standard output on a full device");
    if !Path::new("/dev/full").exists() { return; }
    let file = cli.scratch.join(format!("full-{}", std::process::id()));
    std::fs::write(&file, b"abracadabra abracadabra").expect("cannot write a scratch file");
    let path = file.to_str().unwrap();
    for (name, args) in [("demixer", vec![path]), ("print_histories", vec!["tree", path]), ("print_histories", vec!["fat_map", path]),
                         ("print_histories", vec!["brute_force", path]), ("entropy_simulations", vec![])] {
        let out = std::fs::OpenOptions::new().write(true).open("/dev/full").expect("cannot open the full device");
        let s = Command::new(cli.dir.join(name)).args(&args).stdin(Stdio::null()).stdout(out).stderr(Stdio::null()).status().expect("cannot start the program");
        ensure!(c, !s.success(), "{} could not write its results and reported success", name);
        c.count("write errors in programs reported", 1);
    }
    let _ = std::fs::remove_file(&file);
    c.nontrivial();
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() == 3 && a[1] == "--broken-writer" {
        broken_writer_child(a[2].parse().unwrap());
    }
    let base = std::env::var("B").unwrap_or("/verif/.build".into());
    let cli = Cli { dir: Path::new(&base).join("cli/release"), shim: Path::new(&base).join("shim.so"),
        scratch: std::env::temp_dir().join(format!("vh-c26-{}", std::process::id())) };
    std::fs::create_dir_all(&cli.scratch).expect("cannot create a scratch directory");
    vh::check("C26", "exploration",
        "case = one stream or program run whose reader or writer fails at a chosen byte or system call; non-trivial when something was coded; distinct by stream or input",
        |r| {
            let cli = &cli;
            let n = r.n(30_000, 600_000);
            r.cases("writers", n, writing);
            r.cases("readers", n, reading);
            let n = r.n(40, 400);
            r.cases("broken-for-good", n, |c| {
                c.desc("a writer that never recovers");
                let seed = c.rng.u64() >> 1;
                c.sig(seed);
                let o = Command::new(std::env::current_exe().unwrap()).arg("--broken-writer").arg(seed.to_string())
                    .stdin(Stdio::null()).stderr(Stdio::null()).output().expect("cannot start the child");
                ensure!(c, !o.status.success() && o.stdout.is_empty(), "a program whose output could not be written ended successfully (seed {})", seed);
                c.count("write failures reported", 1);
                c.nontrivial();
            });
            let n = r.n(240, 4_000);
            r.cases("programs", n, |c| programs(c, cli));
            r.cases("full-device", 1, |c| full_device(c, cli));
            let _ = std::fs::remove_dir_all(&cli.scratch);
            r.assume("a closed standard output (EBADF) is not an error: the language's runtime ignores it");
            r.require("write failures reported while finishing", 1_000);
            r.require("read failures reported", 10_000);
            r.require("short or interrupted system calls", 1_000);
            r.require("read errors in programs reported", 50);
            r.require("write errors in programs reported", 50);
        });
}
