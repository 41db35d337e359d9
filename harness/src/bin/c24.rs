//! C24: the per-context and per-symbol tables of the statistics account for
//! every coded bit exactly once.  The tables are only printed, so the real
//! code runs in a child process (this same program) whose output is read.
#[path = "../dx/hist.rs"]
#[allow(dead_code)]
mod hist;
#[path = "../dx/pred.rs"]
#[allow(dead_code)]
mod pred;
use demixer::bit::Bit;
use demixer::history::tree::node::CostTrackers;
use demixer::lut::LookUpTables;
use demixer::fixed_point::{FixedPoint, FixI32, FixI64};
use demixer::predictor::stats::PredictionStatisticsType;
use pred::*;
use std::path::PathBuf;
use std::process::{Command, Stdio};
use vh::{data, ensure, Case};

fn child(path: &str) -> ! {
    let v = std::fs::read(path).expect("cannot read the input");
    let luts = LookUpTables::new();
    let mut p = make(Setup::Default, &luts);
    for &b in &v {
        p.start_new_byte();
        for left in (0..8).rev() {
            p.predict();
            p.update(Bit::from((b >> left) & 1 == 1));
        }
    }
    use PredictionStatisticsType::*;
    p.print_state(&[CostsAndOccurrencesPerContextType, TotalCostUsingLuts, CostsAndOccurrencesPerSymbolValue, AverageContextLength]);
    std::process::exit(0)
}

#[derive(Clone, Copy, Default)]
struct Cell {
    bits: u64,
    cost: f64,
    exact: f64,
    occurrences: u64,
}

struct Want {
    by_context: [Cell; 25],
    by_symbol: Vec<Cell>,
    contexts: u64,
    total: Cell,
}

fn want(c: &mut Case, v: &[u8], luts: &LookUpTables) -> Want {
    let mut w = Want { by_context: [Cell::default(); 25], by_symbol: vec![Cell::default(); 256], contexts: 0, total: Cell::default() };
    let mut m = hist::FullModel::new(20, luts);
    let mut p = c.guarded("creating the predictor", || make(Setup::Default, luts));
    let mut byte = Cell::default();
    drive(c, &mut p, v, |pos, left, prob, bit| {
        if left == 7 { m.start_new_byte(); byte = Cell::default(); }
        let table = prob.estimate_cost(Bit::from(bit), luts.log2_lut()).to_fix_i64::<demixer::fixed_point::types::Log2Q>().as_f64();
        let add = Cell { bits: 1, cost: table, exact: bit_cost(prob.raw(), bit), occurrences: 0 };
        let join = |a: &mut Cell, b: &Cell| { a.bits += b.bits; a.cost += b.cost; a.exact += b.exact; a.occurrences += b.occurrences; };
        let ctx = m.contexts();
        w.contexts += ctx.len() as u64;
        if let Some(longest) = ctx.last() {
            let deterministic = ctx.iter().filter(|h| !hist::is_node(h)).count();
            let i = (ctx.len() - 1).min(4) * 5 + deterministic.min(4);
            join(&mut w.by_context[i], &Cell { occurrences: longest.bits.len().min(hist::CAP) as u64, ..add });
        }
        join(&mut w.total, &add);
        join(&mut byte, &add);
        // a byte is entered once the next one begins
        if left == 0 && pos + 1 < v.len() {
            join(&mut w.by_symbol[v[pos] as usize], &Cell { bits: 8, ..byte });
        }
        let feed = vec![CostTrackers::DEFAULT; m.node_count()];
        m.push_bit(bit, &feed);
    });
    w
}

fn numbers(line: &str) -> Vec<f64> {
    line.split(|ch: char| ch == ',' || ch == ' ').filter_map(|w| w.parse().ok()).collect()
}

fn near(shown: f64, cell: &Cell) -> bool {
    (shown - cell.cost / 8.0).abs() <= 0.0065 + 1e-9 * cell.cost
        && (shown - cell.exact / 8.0).abs() <= 0.0065 + cell.bits as f64 / 1024.0 / 8.0
}

fn compare(c: &mut Case, text: &str, v: &[u8], w: &Want) {
    let mut seen = [false; 25];
    let mut rows = 0;
    let mut counted = 0.0;
    for line in text.lines() {
        if line.starts_with("order ") {
            // order, unary, count, cost, average occurrence count
            let x = numbers(line);
            ensure!(c, x.len() == 5, "five numbers expected in {:?}", line);
            let i = x[0] as usize * 5 + x[1] as usize;
            ensure!(c, x[0] <= 4.0 && x[1] <= 4.0 && !seen[i], "an unexpected or repeated line: {:?}", line);
            seen[i] = true;
            let cell = &w.by_context[i];
            ensure!(c, (x[2] - cell.bits as f64 / 8.0).abs() <= 0.0051, "order {} with {} deterministic contexts: {} bits coded, {:?} printed", x[0], x[1], cell.bits, line);
            ensure!(c, near(x[3], cell), "order {} with {} deterministic contexts: {:.4} bytes coded, {:?} printed", x[0], x[1], cell.cost / 8.0, line);
            let average = cell.occurrences as f64 / cell.bits as f64;
            ensure!(c, if cell.bits == 0 { x[4].is_nan() } else { (x[4] - average).abs() <= 0.00051 },
                    "order {} with {} deterministic contexts: average count {}, {:?} printed", x[0], x[1], average, line);
            counted += x[2];
            c.count("context table rows checked", 1);
            c.count("context table rows with bits", (cell.bits > 0) as u64);
            if cell.bits > 0 { c.seen("context kinds with bits", i as u64); }
        }
        // two blanks, then four cells: code, character, count, cost
        if line.len() >= 120 && line.starts_with("  ") && line.is_char_boundary(2) {
            for k in 0..4 {
                let cell = &line[2 + 32 * k..2 + 32 * k + 29];
                let code = usize::from_str_radix(cell[..2].trim(), 16).unwrap_or(999);
                let x = numbers(&cell[4..]);
                ensure!(c, code == rows + 32 * k && x.len() == 2, "unexpected cell {:?}", cell);
                let shown = cell.as_bytes()[3];
                ensure!(c, shown == if (32..127).contains(&code) { code as u8 } else { 32 }, "symbol {} printed as {:?}", code, cell);
                let s = &w.by_symbol[code];
                ensure!(c, x[0] == (s.bits / 8) as f64, "byte value {:02x} was completed {} times, {:?} printed", code, s.bits / 8, cell);
                ensure!(c, near(x[1], s), "byte value {:02x} cost {:.4} bytes, {:?} printed", code, s.cost / 8.0, cell);
                c.count("symbol table cells checked", 1);
                c.count("symbol table cells with bytes", (s.bits > 0) as u64);
            }
            rows += 1;
        }
        if let Some(x) = line.strip_prefix("Total cost (computed using LUTs):") {
            let x = numbers(x);
            ensure!(c, x.len() == 1 && near(x[0], &w.total), "total cost is {:.4} bytes, {:?} printed", w.total.cost / 8.0, line);
        }
        if let Some(x) = line.strip_prefix("Average context length =") {
            let average = w.contexts as f64 / (v.len() * 8) as f64;
            let x = numbers(x);
            ensure!(c, x.len() == 1 && (x[0].is_nan() && v.is_empty() || (x[0] - average).abs() <= 0.00051), "average context length is {}, {:?} printed", average, line);
            c.count("outputs checked", 1);
        }
    }
    ensure!(c, seen.iter().all(|&s| s), "not all 25 context kinds were printed: {}", text);
    ensure!(c, rows == 32, "{} of 32 symbol rows were printed: {}", rows, text);
    let bits: u64 = w.by_context.iter().map(|x| x.bits).sum();
    ensure!(c, (counted - bits as f64 / 8.0).abs() <= 0.0051 * 25.0, "{} bits had a context, {} bytes printed in all rows", bits, counted);
    c.count("coded bits accounted for", bits);
}

fn one(c: &mut Case, v: &[u8], luts: &LookUpTables, scratch: &PathBuf) {
    let w = want(c, v, luts);
    let file = scratch.join(format!("in-{}-{:x}", std::process::id(), vh::mix(c.index, vh::hash_bytes(24, v))));
    std::fs::write(&file, v).expect("cannot write a scratch file");
    let o = Command::new(std::env::current_exe().unwrap()).arg("--statistics-of").arg(&file)
        .stdin(Stdio::null()).stderr(Stdio::piped()).output().expect("cannot start the child");
    let _ = std::fs::remove_file(&file);
    let text = String::from_utf8_lossy(&o.stdout).to_string();
    ensure!(c, o.status.success(), "printing the statistics failed: {}", String::from_utf8_lossy(&o.stderr).chars().take(600).collect::<String>());
    compare(c, &text, v, &w);
    c.sig_bytes(v);
    if v.len() > 1 { c.nontrivial(); }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() == 3 && a[1] == "--statistics-of" {
        child(&a[2]);
    }
    vh::check("C24", "exploration",
        "case = input coded by the real predictor in a child process; every row of the printed tables is compared with sums over an independent context model and the predicted probabilities; non-trivial when longer than 1 byte; distinct by input",
        |r| {
            let luts = LookUpTables::new();
            let l = &luts;
            let scratch = std::env::temp_dir().join(format!("vh-c24-{}", std::process::id()));
            std::fs::create_dir_all(&scratch).expect("cannot create a scratch directory");
            let s = &scratch;
            let n = r.n(250, 6_000);
            r.cases("inputs", n, |c| {
                let len = c.rng.log_uniform(if c.index % 10 == 0 { 12_000 } else { 1_500 }) as usize - 1;
                let (k, v) = if c.rng.chance(0.2) { data::hostile(&mut c.rng, len) } else { data::any(len, &mut c.rng) };
                c.desc(format!("{} {} bytes: {}", k, v.len(), data::hex(&v)));
                one(c, &v, l, s);
            });
            let n = r.n(60, 600);
            r.cases("seven-bit-text", n, |c| {
                // every byte value of the printed half
                let len = c.rng.usize(100, 3_000);
                let mut v = data::by_kind("text", len, &mut c.rng);
                for x in v.iter_mut() { if c.rng.chance(0.3) { *x = c.rng.u8() & 0x7f; } }
                c.desc(format!("text {} bytes: {}", v.len(), data::hex(&v)));
                one(c, &v, l, s);
            });
            r.cases("tiny", 130, |c| {
                let v: Vec<u8> = match c.index { 0 => vec![], i if i < 129 => vec![i as u8 - 1; 2], _ => vec![7] };
                c.desc(data::hex(&v));
                one(c, &v, l, s);
            });
            let n = r.n(2, 12);
            r.cases("long", n, |c| {
                // more occurrences than the saturation limits of all counters
                let k = *c.rng.pick(&["constant", "binary-alphabet", "text", "period-glitch"]);
                let v = data::by_kind(k, 70_000, &mut c.rng);
                c.desc(format!("{} {} bytes", k, v.len()));
                one(c, &v, l, s);
            });
            let _ = std::fs::remove_dir_all(&scratch);
            r.assume("a byte is entered in the per-symbol table once the next byte begins, so the last byte of an input is not; the table prints the byte values below 128 only");
            r.require("context table rows with bits", 1_000);
            r.require("symbol table cells with bytes", 2_000);
        });
}
