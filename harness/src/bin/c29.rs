//! C29: memory and time are bounded by the configuration, not by the input.
//! A counting allocator and the processor time of the thread are the monitors.
#[path = "../dx/coder.rs"]
#[allow(dead_code)]
mod coder;
#[path = "../dx/mix.rs"]
#[allow(dead_code)]
mod mixed;
use coder::{prob, Ev, HugeRun, Runs, RunsReader};
use demixer::bit::Bit;
use demixer::coding::{decoder::Decoder, encoder::Encoder};
use demixer::fixed_point::FixedPoint;
use demixer::history::fat_map::FatMapHistorySource;
use demixer::history::naive::NaiveHistorySource;
use demixer::history::tree::node::CostTrackers;
use demixer::history::tree::TreeHistorySource;
use demixer::history::{CollectedContextStates, HistorySource};
use demixer::lut::LookUpTables;
use demixer::predictor::Predictor;
use mixed::{make, spec, KINDS, NAMES};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::process::{Command, Stdio};
use vh::{data, ensure, Case, Rng};

// ------------------------------------------------------------------ the meter

struct Counting;
thread_local! {
    static ON: Cell<bool> = const { Cell::new(false) };
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static CALLS: Cell<u64> = const { Cell::new(0) };
}

fn account(by: i64) {
    let _ = ON.try_with(|on| if on.get() {
        let live = LIVE.with(|l| { l.set(l.get() + by); l.get() });
        PEAK.with(|p| if live > p.get() { p.set(live) });
        CALLS.with(|c| c.set(c.get() + (by > 0) as u64));
    });
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { account(l.size() as i64); System.alloc(l) }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 { account(l.size() as i64); System.alloc_zeroed(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { account(-(l.size() as i64)); System.dealloc(p, l) }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        account(n as i64 - l.size() as i64);
        System.realloc(p, l, n)
    }
}
#[global_allocator]
static METER: Counting = Counting;

struct Off;
impl Drop for Off { fn drop(&mut self) { ON.with(|o| o.set(false)) } }
/// only what happens inside is accounted
fn metered<R>(f: impl FnOnce() -> R) -> R {
    ON.with(|o| o.set(true));
    let _off = Off;
    f()
}
fn reset() { LIVE.with(|l| l.set(0)); PEAK.with(|p| p.set(0)); CALLS.with(|c| c.set(0)); }
fn live() -> i64 { LIVE.with(|l| l.get()) }
fn peak() -> i64 { PEAK.with(|p| p.get()) }

#[repr(C)]
struct Timespec { s: i64, ns: i64 }
extern "C" {
    fn clock_gettime(clock: i32, t: *mut Timespec) -> i32;
    fn wait4(pid: i32, status: *mut i32, options: i32, usage: *mut Usage) -> i32;
}
#[repr(C)]
#[derive(Default)]
struct Usage { user: [i64; 2], system: [i64; 2], resident_kb: i64, rest: [i64; 13] }

/// microseconds of processor time this thread has used
fn used() -> f64 {
    let mut t = Timespec { s: 0, ns: 0 };
    unsafe { clock_gettime(3, &mut t); }
    t.s as f64 * 1e6 + t.ns as f64 / 1e3
}

/// What a byte may take. It takes about 15; anything that walks over the
/// input or the window for each byte is far above this for the inputs used.
const US_PER_BYTE: f64 = 400.0;
const US_PER_TREE_BYTE: f64 = 120.0;
const US_PER_MAP_BYTE: f64 = 2_000.0;
const CHUNK: usize = 1024;
/// for one byte of window: a node is below 64 bytes
const BYTES_PER_WINDOW_BYTE: i64 = 160;

/// Chunks that were too slow in this attempt; a machine that stalls makes some
/// chunk slow once, not the same work three times in a row.
struct Pace { limit: f64, worst: f64, slow: u32, at: usize }
impl Pace {
    fn new(limit: f64) -> Pace { Pace { limit, worst: 0.0, slow: 0, at: 0 } }
    /// true when there is no point in going on
    fn see(&mut self, at: usize, per_byte: f64) -> bool {
        self.worst = self.worst.max(per_byte);
        if per_byte > self.limit { self.slow += 1; self.at = at; } else { self.slow = 0; }
        self.slow >= 4
    }
}

fn text(r: &mut Rng, len: usize, window: usize) -> (String, Vec<u8>) {
    match r.below(8) {
        0 => ("one byte value".into(), vec![r.u8(); len]),
        1 => {
            // a period around the window's size
            let p = (window as i64 + r.range(-3, 3)).max(1) as usize;
            let unit: Vec<u8> = (0..p).map(|_| r.u8() & 3).collect();
            (format!("period {}", p), (0..len).map(|i| unit[i % p]).collect())
        }
        2 => {
            let p = 1 + r.log_uniform(300) as usize;
            let unit: Vec<u8> = (0..p).map(|_| r.u8()).collect();
            let mut v: Vec<u8> = (0..len).map(|i| unit[i % p]).collect();
            for _ in 0..len / 5_000 { let k = r.usize(0, len - 1); v[k] ^= 1; }
            (format!("period {} with rare breaks", p), v)
        }
        3 => {
            // Fibonacci word: as many repeated substrings as possible
            let (mut a, mut b) = (vec![b'a'], vec![b'a', b'b']);
            while b.len() < len { let c = [b.clone(), a].concat(); a = b; b = c; }
            b.truncate(len);
            ("Fibonacci word".into(), b)
        }
        4 => { let (k, v) = data::hostile(r, len); (k.into(), v) }
        5 => {
            // noise, then one value over the whole window, again and again
            let mut v = Vec::with_capacity(len);
            while v.len() < len {
                let n = window.min(len - v.len());
                v.extend((0..n).map(|_| r.u8()));
                v.extend(std::iter::repeat(7).take(window.min(len - v.len())));
            }
            ("noise and one value by turns".into(), v)
        }
        6 => ("noise".into(), (0..len).map(|_| r.u8()).collect()),
        _ => { let (k, mut v) = data::any(len, r); v.resize(len, 0); (k.into(), v) }
    }
}

// ----------------------------------------------------------- bounded by window

/// one object that is fed bytes
trait Fed { fn feed(&mut self, byte: u8); }
struct FedTree<'a>(TreeHistorySource<'a>, CollectedContextStates, Vec<CostTrackers>);
impl<'a> Fed for FedTree<'a> {
    fn feed(&mut self, byte: u8) { feed_source(&mut self.0, &mut self.1, &self.2, byte) }
}
struct FedSource<S>(S, CollectedContextStates, Vec<CostTrackers>);
impl<'a, S: HistorySource<'a>> Fed for FedSource<S> {
    fn feed(&mut self, byte: u8) { feed_source(&mut self.0, &mut self.1, &self.2, byte) }
}
fn feed_source<'a, S: HistorySource<'a>>(s: &mut S, got: &mut CollectedContextStates, costs: &[CostTrackers], byte: u8) {
    s.start_new_byte();
    for i in (0..8).rev() {
        got.reset();
        s.gather_history_states(got);
        let nodes = got.items().iter().filter(|x| x.is_for_node()).count();
        s.process_input_bit(Bit::from(byte >> i & 1 == 1), &costs[..nodes]);
    }
}
struct FedPredictor<'a>(Predictor<'a>);
impl<'a> Fed for FedPredictor<'a> {
    fn feed(&mut self, byte: u8) {
        self.0.start_new_byte();
        for i in (0..8).rev() {
            self.0.predict();
            self.0.update(Bit::from(byte >> i & 1 == 1));
        }
    }
}

/// Feeds everything in; returns how it paced, and what it kept at the end.
fn consume(c: &mut Case, x: &mut dyn Fed, v: &[u8], warm: usize, limit: f64, allowed: &dyn Fn(usize) -> i64) -> Pace {
    let mut pace = Pace::new(limit);
    let mut settled = 0;
    let mut at = 0;
    for chunk in v.chunks(CHUNK) {
        let t = used();
        c.guarded("going on", || metered(|| for &b in chunk { x.feed(b) }));
        let t = used() - t;
        at += chunk.len();
        ensure!(c, live() <= allowed(at), "{} bytes of memory are in use after {} bytes of input, {} would do", live(), at, allowed(at));
        if at >= warm {
            if settled == 0 { settled = live(); c.max("bytes of memory in use by a bounded source", settled as f64); }
            ensure!(c, live() <= settled + 65_536,
                "memory in use grows with the input: {} bytes once the window had been filled, {} after {} bytes of input", settled, live(), at);
        }
        if chunk.len() == CHUNK && pace.see(at, t / CHUNK as f64) { break; }
    }
    pace
}

fn paced(c: &mut Case, of: &'static str, mut attempt: impl FnMut(&mut Case) -> Pace) {
    let mut slow = vec![];
    let mut limit = 0.0;
    for _ in 0..3 {
        reset();
        let p = attempt(c);
        if p.slow < 4 {
            c.max(of, (p.worst * 10.0).round() / 10.0);
            c.count("attempts repeated because of a slow chunk", slow.len() as u64);
            return;
        }
        limit = p.limit;
        slow.push(format!("{:.0} us per byte around byte {}", p.worst, p.at));
    }
    c.fail(format!("bytes take more than {} us of processor time, three times in a row: {}", limit, slow.join(", ")));
}

fn sliding(c: &mut Case, l: &LookUpTables, big: bool) {
    let predictor = c.rng.chance(0.4) && !(big && c.index < 2);
    let window = match (big, predictor) {
        (true, false) if c.index < 2 => 2_000_000 + c.rng.usize(0, 100_000),
        (true, false) => c.rng.usize(100_000, if c.thorough { 3_000_000 } else { 400_000 }),
        (true, true) => c.rng.usize(30_000, if c.thorough { 600_000 } else { 90_000 }),
        _ => 1 + c.rng.log_uniform(8_000) as usize,
    };
    let order = if c.rng.bool() { 20 } else { c.rng.usize(0, 20) };
    let len = if big { window * 5 / 2 } else { 3 * window + c.rng.log_uniform(20_000) as usize };
    let (kind, v) = text(&mut c.rng, len, window);
    c.desc(format!("{} over a window of {} at order {}: {} bytes ({})", if predictor { "predictor" } else { "tree" }, window, order, len, kind));
    c.sig_bytes(&v[..v.len().min(5000)]); c.sig(window as u64); c.sig(order as u64);
    paced(c, if predictor { "microseconds for a byte, slowest 1024 bytes of the predictor" } else { "microseconds for a byte, slowest 1024 bytes of the tree" }, |c| {
        let base;
        let pace = if predictor {
            let p = c.guarded("making", || metered(|| Predictor::with_window(window, order, l)));
            base = 40_000_000;
            let mut x = FedPredictor(p);
            let pace = consume(c, &mut x, &v, 2 * window + 4096, US_PER_BYTE, &|_| base + BYTES_PER_WINDOW_BYTE * window as i64);
            c.guarded("ending", || metered(|| drop(x)));
            pace
        } else {
            base = 1_000_000;
            let costs = vec![CostTrackers::DEFAULT; 64];
            let mut x = c.guarded("making", || metered(|| FedTree(TreeHistorySource::new(window, order, l), CollectedContextStates::new(order), vec![])));
            x.2 = costs;
            let pace = consume(c, &mut x, &v, 2 * window + 4096, US_PER_TREE_BYTE, &|_| base + BYTES_PER_WINDOW_BYTE * window as i64);
            let FedTree(a, b, costs) = x;
            c.guarded("ending", || metered(|| { drop(a); drop(b) }));
            drop(costs);
            pace
        };
        ensure!(c, live() == 0, "{} bytes of memory were never released", live());
        pace
    });
    c.count("bytes consumed by bounded sources", v.len() as u64);
    c.count("windows of 30000 bytes or more slid over", (window >= 30_000) as u64);
    c.nontrivial();
}

/// the sources whose window does not slide: proportional to the input
fn proportional(c: &mut Case, l: &LookUpTables) {
    let naive = c.rng.chance(0.3);
    let len = 1 + c.rng.log_uniform(if naive { 250 } else { 20_000 }) as usize;
    let order = c.rng.usize(0, 20);
    let (kind, v) = text(&mut c.rng, len, len / 3 + 1);
    c.desc(format!("{} at order {}: {} bytes ({})", if naive { "brute force" } else { "map" }, order, len, kind));
    c.sig_bytes(&v); c.sig(order as u64);
    let costs = vec![CostTrackers::DEFAULT; 64];
    let allowed = move |n: usize| 1_000_000 + len as i64 + 700 * 8 * (order as i64 + 1) * n as i64;
    paced(c, "microseconds for a byte, slowest 1024 bytes of the map", |c| {
        let pace = if naive {
            let mut x = c.guarded("making", || metered(|| FedSource(NaiveHistorySource::new(len, order, l), CollectedContextStates::new(order), vec![])));
            x.2 = costs.clone();
            for (k, &b) in v.iter().enumerate() {
                c.guarded("going on", || metered(|| x.feed(b)));
                ensure!(c, live() <= 1_000_000 + 200 * len as i64, "{} bytes of memory are in use after {} bytes of input", live(), k + 1);
            }
            let FedSource(a, b, _) = x;
            c.guarded("ending", || metered(|| { drop(a); drop(b) }));
            Pace::new(0.0)
        } else {
            let mut x = c.guarded("making", || metered(|| FedSource(FatMapHistorySource::new(len, order, l), CollectedContextStates::new(order), vec![])));
            x.2 = costs.clone();
            let pace = consume(c, &mut x, &v, usize::MAX, US_PER_MAP_BYTE, &allowed);
            let FedSource(a, b, _) = x;
            c.guarded("ending", || metered(|| { drop(a); drop(b) }));
            pace
        };
        c.max("bytes of memory for each bit and order of the map", if naive || len < 500 { 0.0 } else { peak() as f64 / (8.0 * (order as f64 + 1.0) * len as f64) });
        ensure!(c, live() == 0, "{} bytes of memory were never released", live());
        pace
    });
    c.count("bytes consumed by unbounded sources", v.len() as u64);
    c.nontrivial();
}

// -------------------------------------------------------------- everything else

/// whatever is made is released again, also when it failed
fn released(c: &mut Case, l: &LookUpTables) {
    let mut s = spec(&mut c.rng, 1_500);
    s.kind = c.index % KINDS;
    if s.kind == 3 { s.steps = s.steps.min(300) }
    let fails = c.rng.chance(0.3);
    c.desc(format!("{} seed {:x}, {} steps{}", NAMES[s.kind as usize], s.seed, s.steps, if fails { ", then refused" } else { "" }));
    c.sig(s.seed); c.sig(s.kind);
    // what the panic machinery keeps is not counted against the instance
    if fails { let _ = vh::caught(|| panic!("warm")); }
    reset();
    let r = metered(|| {
        let r = vh::caught(|| {
            let mut x = make(s, l);
            for _ in 0..s.steps { x.step(); }
            if fails { x.abuse(); }
            drop(x);
        });
        r.is_err()
    });
    ensure!(c, fails || !r, "it panicked");
    let slack = if fails { 4_096 } else { 0 };
    ensure!(c, live() <= slack, "{} bytes of memory were never released", live());
    c.count("instances made and released", 1);
    c.count("instances released after a failure", r as u64);
    c.nontrivial();
}

/// components of fixed size keep no more after a million calls than at first
fn fixed(c: &mut Case, l: &LookUpTables) {
    let kind = [4, 5, 6, 9][c.index as usize % 4];
    let s = mixed::Spec { kind, seed: c.rng.u64(), steps: 50_000 };
    c.desc(format!("{} seed {:x}, {} steps", NAMES[kind as usize], s.seed, s.steps));
    c.sig(s.seed); c.sig(kind);
    reset();
    let mut x = metered(|| make(s, l));
    let t = used();
    metered(|| for _ in 0..100 { x.step(); });
    let first = live();
    metered(|| for _ in 0..s.steps { x.step(); });
    let t = (used() - t) / s.steps as f64;
    ensure!(c, live() <= first + 1_024, "{} bytes of memory are in use after 100 calls, {} after {}", first, live(), s.steps);
    c.max("microseconds for a call, components of fixed size", t);
    metered(|| drop(x));
    ensure!(c, live() == 0, "{} bytes of memory were never released", live());
    c.count("calls on components of fixed size", s.steps as u64);
    c.nontrivial();
}

/// neither undecided carries nor the length of the stream take memory
fn coders(c: &mut Case) {
    let run = 1 + c.rng.log_uniform(if c.index == 0 { 1 << 26 } else { 1 << 20 });
    let run = if c.index == 0 { run.max(1 << 25) } else { run };
    let make = HugeRun::new(&mut c.rng, run);
    c.desc(format!("coding {}", make.describe()));
    c.sig(run);
    let t = used();
    let mut w = Runs(Vec::with_capacity(1_000));
    let mut n = 0u64;
    reset();
    {
        let mut e = c.guarded("making", || metered(|| Encoder::new(&mut w)));
        for ev in make.clone() {
            if let Ev::Bit(p, b) = ev { metered(|| e.encode_bit(prob(p), Bit::from(b))); }
            n += 1;
            if n % 1024 == 0 { ensure!(c, live() <= 4_096, "the encoder keeps {} bytes of memory after {} bits", live(), n); }
        }
        c.guarded("ending", || metered(|| drop(e)));
    }
    ensure!(c, live() == 0, "the encoder never released {} bytes of memory", live());
    let per = (used() - t) / n as f64;
    let t = used();
    let mut r = RunsReader { runs: &w.0, used: 0 };
    let mut d = c.guarded("making", || metered(|| Decoder::new(&mut r)));
    for ev in make.clone() {
        if let Ev::Bit(p, _) = ev { metered(|| d.decode_bit(prob(p))); }
    }
    ensure!(c, live() <= 4_096, "the decoder keeps {} bytes of memory after {} bits", live(), n);
    metered(|| drop(d));
    ensure!(c, live() == 0, "the decoder never released {} bytes of memory", live());
    let slowest = per.max((used() - t) / n as f64);
    c.max("microseconds for a coded bit, including the monitor", slowest);
    ensure!(c, n < 100_000 || slowest < 40.0, "a coded bit takes {:.0} us", slowest);
    c.count("bits coded", n);
    c.nontrivial();
}

/// the whole program: resident memory and processor time
fn program(c: &mut Case, base: &str) {
    let len = match c.index { 0 => 0, 1 => 1, 2 => if c.thorough { 11_000_000 } else { 250_000 }, _ => c.rng.log_uniform(60_000) as usize };
    let (kind, v) = text(&mut c.rng, len, len / 3 + 1);
    let f = std::env::temp_dir().join(format!("vh-c29-{}-{}", std::process::id(), c.index));
    std::fs::write(&f, &v).expect("cannot write a scratch file");
    c.desc(format!("demixer on {} bytes ({})", len, kind));
    c.sig_bytes(&v);
    // through a small process of its own: a child is charged with the size of its parent
    let o = Command::new(std::env::current_exe().unwrap()).arg("--usage").arg(format!("{}/cli/release/demixer", base)).arg(&f)
        .stdin(Stdio::null()).output().expect("cannot start the program");
    let text = String::from_utf8_lossy(&o.stdout).to_string();
    let got: Vec<f64> = text.split_whitespace().filter_map(|x| x.parse().ok()).collect();
    let _ = std::fs::remove_file(&f);
    ensure!(c, got.len() == 3, "no usage was reported: {}", text);
    let (status, seconds, resident_kb) = (got[0], got[1], got[2]);
    ensure!(c, status == 0.0, "demixer ended with status {}", status);
    let allowed = 160_000 + (BYTES_PER_WINDOW_BYTE * len.min(10_000_000) as i64) / 1024;
    ensure!(c, (resident_kb as i64) <= allowed, "{} kB of memory were in use for {} bytes of input, {} would do", resident_kb as i64, len, allowed);
    c.max("kB of memory of the program", resident_kb);
    let limit = 20.0 + US_PER_BYTE * 1e-6 * len as f64;
    ensure!(c, seconds <= limit, "{:.1} s of processor time were used for {} bytes of input", seconds, len);
    c.count("program runs", 1);
    c.nontrivial();
}

/// runs a program and tells what it used
fn usage(a: &[String]) -> ! {
    let child = Command::new(&a[2]).arg(&a[3]).stdout(Stdio::null()).stderr(Stdio::null()).spawn().expect("cannot start the program");
    let (mut u, mut status) = (Usage::default(), 0);
    unsafe { wait4(child.id() as i32, &mut status, 0, &mut u); }
    println!("{} {} {}", status, u.user[0] as f64 + u.user[1] as f64 / 1e6, u.resident_kb);
    std::process::exit(0)
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.get(1).map_or(false, |x| x == "--usage") { usage(&a); }
    let base = std::env::var("B").unwrap_or("/verif/.build".into());
    vh::check("C29", "exploration",
        "case = one instance fed a whole input, or one program run, under a counting allocator and a processor clock; distinct by input and configuration",
        |r| {
            r.once("tables", |c| {
                c.desc("lookup tables made and released");
                let t = used();
                reset();
                let l = c.guarded("making tables", || metered(|| Box::new(LookUpTables::new())));
                ensure!(c, live() < 4_000_000, "the tables take {} bytes of memory", live());
                metered(|| drop(l));
                ensure!(c, live() == 0, "{} bytes of memory were never released", live());
                ensure!(c, used() - t < 60e6, "making the tables takes {:.0} s", (used() - t) / 1e6);
                c.max("milliseconds to make the tables", (used() - t) / 1e3);
            });
            let luts = LookUpTables::new();
            let l = &luts;
            let n = r.n(400, 4_000);
            r.cases("sliding", n, |c| sliding(c, l, false));
            let n = r.n(24, 200);
            r.cases("sliding-far", n, |c| sliding(c, l, true));
            let n = r.n(300, 3_000);
            r.cases("proportional", n, |c| proportional(c, l));
            let n = r.n(1_500, 15_000);
            r.cases("released", n, |c| released(c, l));
            let n = r.n(24, 240);
            r.cases("fixed", n, |c| fixed(c, l));
            let n = r.n(24, 120);
            r.cases("coders", n, coders);
            let n = r.n(10, 40);
            r.cases("program", n, |c| program(c, &base));
            r.require("bytes consumed by bounded sources", 3_000_000);
            r.require("windows of 30000 bytes or more slid over", 15);
            r.require("instances made and released", 1_000);
            r.require("instances released after a failure", 100);
            r.require("bits coded", 10_000_000);
            r.require("program runs", 10);
            r.assume("time is processor time of the thread, with a bound more than twenty times above what is usual, exceeded in three attempts");
        });
}
