//! C15: command-line programs report totals consistent with what they
//! processed. Runs the real executables on scratch files.
#[path = "../dx/hist.rs"]
#[allow(dead_code)]
mod hist;
#[path = "../dx/pred.rs"]
#[allow(dead_code)]
mod pred;
use demixer::bit::Bit;
use demixer::coding::FinalProbability;
use demixer::estimators::decelerating::DeceleratingEstimator;
use demixer::fixed_point::{FixU32, FixedPoint};
use demixer::history::tree::node::CostTrackers;
use demixer::lut::estimator::DeceleratingEstimatorRates;
use demixer::lut::LookUpTables;
use pred::*;
use std::collections::HashMap;
use std::io::Write;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use vh::{data, ensure, Case};

struct Cli {
    dir: PathBuf,
    scratch: PathBuf,
}

struct Run {
    ok: bool,
    out: Vec<u8>,
}

impl Cli {
    fn program(&self, name: &str) -> Command {
        let mut c = Command::new(self.dir.join(name));
        c.stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::null());
        c
    }
    fn run(&self, name: &str, args: &[&str]) -> Run {
        let o = self.program(name).args(args).output().expect("cannot start the program");
        Run { ok: o.status.success(), out: o.stdout }
    }
    fn file(&self, c: &Case, v: &[u8]) -> Scratch {
        let id = vh::mix(c.index, vh::hash_bytes(v.len() as u64, v));
        let p = self.scratch.join(format!("in-{}-{:x}", std::process::id(), id));
        std::fs::write(&p, v).expect("cannot write a scratch file");
        Scratch(p)
    }
}

struct Scratch(PathBuf);
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_file(&self.0);
    }
}
impl Scratch {
    fn path(&self) -> &str {
        self.0.to_str().unwrap()
    }
}

/// first number after a line's label
fn number(text: &str, label: &str) -> Option<f64> {
    text.lines().find(|l| l.starts_with(label)).and_then(|l| {
        let rest = l[label.len()..].trim_start_matches(|ch: char| ch == ' ' || ch == '=' || ch == ':');
        rest.split_whitespace().next().and_then(|w| w.parse().ok())
    })
}

struct Expected {
    bits: f64,
    lut_bits: f64,
    contexts: Option<u64>,
}

fn expected(c: &mut Case, v: &[u8], luts: &LookUpTables, count_contexts: bool) -> Expected {
    let mut e = Expected { bits: 0.0, lut_bits: 0.0, contexts: None };
    let mut p = c.guarded("creating the predictor", || make(Setup::Default, luts));
    let (mut exact, mut table) = (0.0, 0.0);
    drive(c, &mut p, v, |_, _, prob, bit| {
        exact += bit_cost(prob.raw(), bit);
        table += prob.estimate_cost(Bit::from(bit), luts.log2_lut()).as_f64();
    });
    e.bits = exact;
    e.lut_bits = table;
    if count_contexts {
        let mut m = hist::FullModel::new(20, luts);
        let mut n = 0u64;
        for &b in v {
            m.start_new_byte();
            for left in (0..8).rev() {
                n += m.contexts().len() as u64;
                let feed = vec![CostTrackers::DEFAULT; m.node_count()];
                m.push_bit((b >> left) & 1 == 1, &feed);
            }
        }
        e.contexts = Some(n);
    }
    e
}

fn check_totals(c: &mut Case, out: &[u8], v: &[u8], e: &Expected) {
    let text = String::from_utf8_lossy(out).to_string();
    let get = |c: &Case, label: &str| -> f64 {
        match number(&text, label) {
            Some(x) => x,
            None => c.fail(format!("no \"{}\" in the output: {}", label, text)),
        }
    };
    let n = v.len() as f64;
    let len = get(c, "input length");
    ensure!(c, len == n, "{} bytes long input reported as {} bytes", v.len(), len);
    let bits = get(c, "total cost in bits");
    let bytes = get(c, "total cost in bytes");
    ensure!(c, (bits - e.bits).abs() <= 0.002 + 1e-9 * e.bits,
            "total cost reported as {} bits, the coded bits cost {:.4}", bits, e.bits);
    ensure!(c, (bytes - e.bits / 8.0).abs() <= 0.002 + 1e-9 * e.bits,
            "total cost reported as {} bytes, the coded bits cost {:.4}", bytes, e.bits / 8.0);
    let lut = get(c, "Total cost (computed using LUTs)");
    ensure!(c, (lut - e.lut_bits / 8.0).abs() <= 0.0065 + 1e-7 * e.bits,
            "total cost from tables reported as {} bytes, their sum is {:.4}", lut, e.lut_bits / 8.0);
    let precision = n * 8.0 / 1024.0 / 8.0 + 0.01;
    ensure!(c, (lut - e.bits / 8.0).abs() <= precision,
            "total cost from tables is {} bytes, exact total is {:.4}", lut, e.bits / 8.0);
    c.max("difference of the totals in bits per million coded bits", if n > 0.0 { (lut * 8.0 - e.bits).abs() / (n * 8.0) * 1e6 } else { 0.0 });
    if !v.is_empty() {
        let avg = get(c, "average cost");
        ensure!(c, (avg - e.bits / n).abs() <= 2e-5 + 1e-9 * avg, "average cost reported as {}, is {}", avg, e.bits / n);
        let ratio = get(c, "compression ratio");
        let want = n * 8.0 / e.bits;
        ensure!(c, (ratio - want).abs() <= 0.002 + 1e-6 * want, "compression ratio reported as {}, is {}", ratio, want);
        let ctx = get(c, "Average context length");
        if let Some(k) = e.contexts {
            let want = k as f64 / (n * 8.0);
            ensure!(c, (ctx - want).abs() <= 0.002, "average context length reported as {}, {} contexts matched {} bits ({})", ctx, k, v.len() * 8, want);
            c.count("average context lengths compared", 1);
        }
    }
    c.count("reports compared", 1);
    c.count("bytes processed by the program", v.len() as u64);
}

fn histories(v: &[u8], luts: &LookUpTables) -> String {
    let mut m = hist::FullModel::new(demixer::MAX_ORDER, luts);
    let mut s = String::new();
    for (i, &b) in v.iter().take(1234).enumerate() {
        s.push_str(&format!("Processing byte with index: {}, {}\n", i, b as char));
        m.start_new_byte();
        for left in (0..8).rev() {
            let items: Vec<String> = m.contexts().iter().map(|h| {
                let raw = hist::recent_raw(&h.bits);
                let last = if raw >= 128 { 128 | (raw & 127) } else { raw };
                format!("{:x}", last)
            }).collect();
            if !items.is_empty() {
                s.push_str(&format!("{}: {}\n", left, items.join(", ")));
            }
            let feed = vec![CostTrackers::DEFAULT; m.node_count()];
            m.push_bit((b >> left) & 1 == 1, &feed);
        }
        s.push('\n');
    }
    s
}

const TYPES: [&str; 3] = ["brute_force", "fat_map", "tree"];

fn compare_histories(c: &mut Case, cli: &Cli, v: &[u8], luts: &LookUpTables) {
    let want = histories(v, luts);
    let f = cli.file(c, v);
    for t in TYPES {
        let r = cli.run("print_histories", &[t, f.path()]);
        ensure!(c, r.ok, "print_histories {} failed", t);
        if r.out != want.as_bytes() {
            let got = String::from_utf8_lossy(&r.out).to_string();
            let k = got.lines().zip(want.lines()).position(|(a, b)| a != b)
                .unwrap_or(got.lines().count().min(want.lines().count()));
            c.fail(format!("print_histories {}: line {} is {:?}, the input implies {:?}", t, k + 1, got.lines().nth(k), want.lines().nth(k)));
        }
    }
    c.count("history reports compared", 3);
    c.count("bytes in history reports", 3 * v.len().min(1234) as u64);
}

/// what the simulation program must print for one line
fn simulated(probability: f64, rates: &DeceleratingEstimatorRates, run: usize) -> (f64, u64) {
    let mut est = DeceleratingEstimator::new();
    let mut acc = probability;
    let (mut cost, mut zeros) = (0.0, 0);
    for i in 0..10_000 {
        if i % run == 0 {
            est = DeceleratingEstimator::new();
        }
        acc += probability;
        let one = acc < 1.0;
        if !one {
            acc -= 1.0;
        }
        cost += bit_cost(est.prediction().to_fix_u32::<FinalProbability>().raw(), one);
        zeros += !one as u64;
        est.update(Bit::from(one), rates);
    }
    (cost, zeros)
}

fn main() {
    let base = std::env::var("B").unwrap_or("/verif/.build".into());
    let cli = Cli { dir: Path::new(&base).join("cli/release"), scratch: Path::new(&base).join("c15-scratch") };
    std::fs::create_dir_all(&cli.scratch).expect("cannot create the scratch directory");
    vh::check("C15", "exploration",
        "case = input file and program; the printed report is compared with totals accumulated by the monitor; non-trivial when the file has at least two bytes; distinct by file contents and program",
        |r| {
            let luts = LookUpTables::new();
            let l = &luts;
            let n = r.n(330, 6_000);
            r.cases("compressor", n, |c| {
                let (k, v): (&str, Vec<u8>) = match c.index {
                    0 => ("empty", vec![]),
                    1..=32 => ("single", vec![(c.index as u8).wrapping_mul(41)]),
                    33 => ("all-values", (0..=255).collect()),
                    34 => ("zeros", vec![0; 20_000]),
                    35 => ("above-buffer", data::by_kind("text", 8 * 1024 + 1, &mut c.rng)),
                    36 => ("buffer", data::by_kind("random", 8 * 1024, &mut c.rng)),
                    37 => ("big", data::by_kind("copy-mutate", 300_000, &mut c.rng)),
                    38 => ("big", data::by_kind("random", 300_000, &mut c.rng)),
                    39..=60 => ("two", vec![c.rng.u8(), c.rng.u8()]),
                    _ => {
                        let max = if c.index % 8 == 0 { 30_000 } else { 3_000 };
                        let len = c.rng.log_uniform(max) as usize;
                        data::any(len, &mut c.rng)
                    }
                };
                c.desc(format!("demixer on {} bytes ({}): {}", v.len(), k, data::hex(&v[..v.len().min(200)])));
                c.sig_bytes(&v);
                if v.len() >= 2 {
                    c.nontrivial();
                }
                let e = expected(c, &v, l, v.len() <= 30_000);
                let f = cli.file(c, &v);
                let run = cli.run("demixer", &[f.path()]);
                ensure!(c, run.ok, "the compressor failed");
                check_totals(c, &run.out, &v, &e);
                c.seen("total costs", (e.bits * 1000.0) as u64);
            });
            let n = r.n(24, 200);
            r.cases("dribbled-pipe", n, |c| {
                // a source that delivers short, delayed pieces
                if !Path::new("/dev/stdin").exists() {
                    return;
                }
                let len = c.rng.log_uniform(20_000) as usize;
                let (k, v) = data::any(len, &mut c.rng);
                c.desc(format!("demixer on a pipe with {} bytes ({})", v.len(), k));
                c.sig_bytes(&v);
                c.nontrivial();
                let e = expected(c, &v, l, true);
                let mut child = cli.program("demixer").arg("/dev/stdin").stdin(Stdio::piped()).spawn().expect("cannot start the program");
                {
                    let mut w = child.stdin.take().unwrap();
                    let mut at = 0;
                    while at < v.len() {
                        let k = (c.rng.log_uniform(9_000) as usize).min(v.len() - at);
                        if w.write_all(&v[at..at + k]).is_err() {
                            break;
                        }
                        at += k;
                        if c.rng.chance(0.3) {
                            std::thread::sleep(std::time::Duration::from_micros(300));
                        }
                    }
                }
                let o = child.wait_with_output().expect("cannot wait for the program");
                ensure!(c, o.status.success(), "the compressor failed");
                check_totals(c, &o.stdout, &v, &e);
                c.count("pipes read", 1);
            });
            let n = r.n(160, 2_500);
            r.cases("histories", n, |c| {
                let (k, v): (&str, Vec<u8>) = match c.index {
                    0 => ("empty", vec![]),
                    1 => ("single", vec![b'x']),
                    2 => ("all-values", (0..=255).collect()),
                    3 => ("zeros", vec![0; 120]),
                    4 => ("past the last printed byte", data::by_kind("random", 1_300, &mut c.rng)),
                    5 => ("exactly as much as is printed", data::by_kind("random", 1_234, &mut c.rng)),
                    6 => ("two", vec![1, 2]),
                    _ => {
                        let len = c.rng.log_uniform(300) as usize;
                        data::any(len, &mut c.rng)
                    }
                };
                c.desc(format!("print_histories on {} bytes ({}): {}", v.len(), k, data::hex(&v[..v.len().min(200)])));
                c.sig_bytes(&v);
                if v.len() >= 2 {
                    c.nontrivial();
                }
                compare_histories(c, &cli, &v, l);
            });
            r.cases("refusals", 1, |c| {
                c.desc("missing arguments, missing files, directories, unknown types");
                let missing = cli.scratch.join("no-such-file");
                let (missing, dir) = (missing.to_str().unwrap(), cli.scratch.to_str().unwrap());
                ensure!(c, !cli.run("demixer", &[]).ok, "no file name accepted");
                ensure!(c, !cli.run("demixer", &[missing]).ok, "missing file accepted");
                ensure!(c, !cli.run("demixer", &[dir]).ok, "reading failed, success reported");
                let f = cli.file(c, b"abcabc");
                ensure!(c, !cli.run("print_histories", &[]).ok, "no type accepted");
                ensure!(c, !cli.run("print_histories", &["nonsense", f.path()]).ok, "unknown history type accepted");
                for t in TYPES {
                    ensure!(c, !cli.run("print_histories", &[t]).ok, "no file name accepted");
                    ensure!(c, !cli.run("print_histories", &[t, missing]).ok, "missing file accepted");
                    ensure!(c, !cli.run("print_histories", &[t, dir]).ok, "reading failed, success reported");
                    c.count("refusals", 3);
                }
                c.nontrivial();
            });
            r.cases("simulation", 1, |c| {
                c.desc("entropy_simulations");
                let run = cli.run("entropy_simulations", &[]);
                ensure!(c, run.ok, "entropy_simulations failed");
                let text = String::from_utf8_lossy(&run.out).to_string();
                let (mut p, mut len, mut lines) = (0.5, 1usize, 0u64);
                let mut cache: HashMap<(i64, i64), DeceleratingEstimatorRates> = HashMap::new();
                for line in text.lines() {
                    if let Some(x) = line.strip_prefix("power: ") {
                        p = 1.0 / (1.0 + x.trim().parse::<f64>().unwrap().exp());
                    } else if let Some(x) = line.strip_prefix("single run length = ") {
                        len = x.trim().parse().unwrap();
                    } else if let Some(rest) = line.strip_prefix("LUT: ") {
                        let num = |key: &str| -> f64 {
                            let at = rest.find(key).unwrap_or_else(|| c.fail(format!("no {} in {}", key, line))) + key.len();
                            rest[at..].trim_start().split(|ch: char| ch == ',' || ch == ' ').next().unwrap().parse()
                                .unwrap_or_else(|_| c.fail(format!("no number after {} in {}", key, line)))
                        };
                        let (f, a) = (num("factor =") as i64, num("addend =") as i64);
                        let rates = cache.entry((f, a)).or_insert_with(|| DeceleratingEstimatorRates::make(f as _, a as _));
                        let (cost, zeros) = simulated(p, rates, len);
                        let (total, ideal) = (num("total cost:"), num("ideal cost:"));
                        let (z, o) = (num("zeros:"), num("ones:"));
                        ensure!(c, z == zeros as f64 && z + o == 10_000.0, "{} zeros fed, reported: {}", zeros, line);
                        ensure!(c, (total - cost).abs() <= 10_000.0 / 1024.0, "the predictions cost {:.3} bits, reported: {}", cost, line);
                        let q = z / 10_000.0;
                        let h = if z == 0.0 || o == 0.0 { 0.0 } else { -10_000.0 * (q * q.log2() + (1.0 - q) * (1.0 - q).log2()) };
                        ensure!(c, ideal.is_nan() || (ideal - h).abs() <= 1e-3, "the ideal cost is {:.4}, reported: {}", h, line);
                        if h > 0.0 {
                            ensure!(c, (num("overhead:") - (total / ideal - 1.0)).abs() <= 1e-5 && (num("ratio:") - 10_000.0 / total).abs() <= 1e-5,
                                    "inconsistent line: {}", line);
                        }
                        lines += 1;
                    }
                }
                ensure!(c, lines == 37 * 16 * 4, "{} lines reported", lines);
                c.count("simulation lines compared", lines);
                c.nontrivial();
            });
            r.assume("the compressor's bit costs are taken from the same predictor linked into the monitor; that predictor's own behaviour is decided by other properties");
            r.require("reports compared", 300);
            r.require("history reports compared", 400);
            r.require("average context lengths compared", 250);
            r.require("simulation lines compared", 2_000);
        });
}
