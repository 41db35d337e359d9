//! C03: brute-force, hash-map and suffix-tree history sources agree.
#[path = "../dx/hist.rs"]
#[allow(dead_code)]
mod hist;
use demixer::bit::Bit;
use demixer::history::fat_map::FatMapHistorySource;
use demixer::history::naive::NaiveHistorySource;
use demixer::history::tree::node::CostTrackers;
use demixer::history::tree::TreeHistorySource;
use demixer::history::{CollectedContextStates, ContextState, HistorySource};
use demixer::lut::LookUpTables;
use vh::{ensure, Case};

fn states<'a>(s: &impl HistorySource<'a>, col: &mut CollectedContextStates) {
    col.reset();
    s.gather_history_states(col);
}

struct Setup {
    naive: bool,
    /// the chance of asking the brute-force source at one bit
    sampled: f64,
    feed_costs: bool,
    window: usize,
    shift: usize,
    order: usize,
}

fn neutral(v: &[ContextState]) -> Vec<ContextState> {
    v.iter().cloned().map(|mut s| { s.neutralize_cost_trackers(); s }).collect()
}

fn run(c: &mut Case, data: &[u8], s: &Setup, luts: &LookUpTables) {
    let mut naive = NaiveHistorySource::new(s.window, s.order, luts);
    let mut fat = FatMapHistorySource::new(s.window, s.order, luts);
    let mut tree = TreeHistorySource::new_special(s.window, s.order, s.shift, luts);
    let mut cn = CollectedContextStates::new(s.order);
    let mut cf = CollectedContextStates::new(s.order);
    let mut ct = CollectedContextStates::new(s.order);
    let mut trace = vh::H0;
    for (at, &byte) in data.iter().enumerate() {
        c.guarded(&format!("starting byte {}", at), || {
            if s.naive { naive.start_new_byte(); }
            fat.start_new_byte();
            tree.start_new_byte();
        });
        for bi in (0..8).rev() {
            let ask = s.naive && (s.sampled >= 1.0 || c.rng.chance(s.sampled * (0.3 + 1.4 * at as f64 / data.len() as f64)));
            c.guarded(&format!("gathering at byte {} bit {}", at, bi), || {
                if ask { states(&naive, &mut cn); }
                states(&fat, &mut cf);
                states(&tree, &mut ct);
            });
            let (f, t) = (cf.items(), ct.items());
            let same = f.len() == t.len()
                && if s.feed_costs { f == t } else { neutral(f) == neutral(t) };
            ensure!(c, same, "byte {} bit {}: tree reports {:?}, hash map reports {:?}", at, bi, t, f);
            if ask {
                let n = cn.items();
                c.count("three-way comparisons more than 65536 bytes in", (at > 65_536) as u64);
                ensure!(c, neutral(n) == neutral(t), "byte {} bit {}: tree reports {:?}, brute force reports {:?}", at, bi, t, n);
                c.count("three-way comparisons", 1);
            }
            c.count("context lists compared", 1);
            c.count("contexts compared", t.len() as u64);
            let nodes = t.iter().take_while(|x| x.is_for_node()).count();
            ensure!(c, t[nodes..].iter().all(|x| !x.is_for_node()),
                "byte {} bit {}: a branching context above a deterministic one: {:?}", at, bi, t);
            c.count("branching contexts compared", nodes as u64);
            trace = vh::mix(trace, (t.len() as u64) << 32 | (nodes as u64) << 16
                | t.last().map_or(0, |x| x.last_occurrence_distance().min(65535) as u64));
            let feed: Vec<CostTrackers> = (0..nodes).map(|_|
                if s.feed_costs { hist::trackers(&mut c.rng) } else { CostTrackers::DEFAULT }).collect();
            let bit = Bit::from((byte >> bi) & 1 == 1);
            c.guarded(&format!("processing byte {} bit {}", at, bi), || {
                if s.naive {
                    let d: Vec<CostTrackers> = feed.iter().map(|_| CostTrackers::DEFAULT).collect();
                    naive.process_input_bit(bit, &d);
                }
                fat.process_input_bit(bit, &feed);
                tree.process_input_bit(bit, &feed);
            });
        }
        c.seen("contexts-per-byte traces", trace);
    }
    c.count("bytes", data.len() as u64);
    c.sig(trace);
    c.sig_bytes(data);
    if data.len() > 2 {
        c.nontrivial();
    }
}

fn setup(c: &mut Case, len: usize, naive: bool) -> Setup {
    let order = match c.rng.below(6) {
        0 => 0,
        1 => c.rng.usize(1, 3),
        2 => 63,
        3 => c.rng.usize(0, 63),
        _ => c.rng.usize(2, 24),
    };
    let window = len.max(1) + if c.rng.bool() { 0 } else { c.rng.usize(0, 50) };
    let shift = if c.rng.bool() { 0 } else { c.rng.usize(0, window - 1) };
    Setup { naive, sampled: 1.0, feed_costs: c.rng.bool(), window, shift, order }
}

fn main() {
    vh::check("C03", "exploration",
        "case = one input string, order, window and buffer phase driven through all sources bit by bit; every reported context list is compared; non-trivial when more than 2 bytes; distinct by input and trace of reported contexts",
        |r| {
            let luts = LookUpTables::new();
            let n = r.n(6000, 120_000);
            r.cases("three-way", n, |c| {
                let len = c.rng.log_uniform(220) as usize;
                let (k, data) = vh::data::any(len, &mut c.rng);
                let s = setup(c, len, true);
                c.desc(format!("{} {} bytes order {} window {} shift {} costs {} data {}", k, len, s.order, s.window, s.shift, s.feed_costs, vh::data::hex(&data)));
                run(c, &data, &s, &luts);
            });
            let n = r.n(2500, 60_000);
            r.cases("map-vs-tree", n, |c| {
                let len = c.rng.log_uniform(2500) as usize;
                let (k, data) = vh::data::any(len, &mut c.rng);
                let s = setup(c, len, false);
                c.desc(format!("{} {} bytes order {} window {} shift {} costs {} data {}", k, len, s.order, s.window, s.shift, s.feed_costs, vh::data::hex(&data)));
                run(c, &data, &s, &luts);
            });
            let n = r.n(8, 120);
            r.cases("saturating", n, |c| {
                // contexts that occur more often than the saturation limits
                let len = c.rng.usize(2200, 5000);
                let k = *c.rng.pick(&["constant", "runs", "period-glitch", "binary-alphabet", "periodic"]);
                let data = vh::data::by_kind(k, len, &mut c.rng);
                let mut s = setup(c, len, false);
                s.order = s.order.min(20);
                c.desc(format!("{} {} bytes order {}", k, len, s.order));
                run(c, &data, &s, &luts);
            });
            let n = r.n(4, 60);
            r.cases("far-repeats", n, |c| {
                // tokens that come back at exact distances up to 140,000 bytes
                let len = if c.index == 0 { 145_000 } else { c.rng.usize(20_000, 145_000) };
                let (k, data) = vh::data::distances(&mut c.rng, len);
                let mut s = setup(c, len, false);
                s.order = *c.rng.pick(&[2, 3, 4, 6]);
                c.desc(format!("{} repeats at marked distances, {} bytes order {} shift {} of {}", k, len, s.order, s.shift, s.window));
                run(c, &data, &s, &luts);
                c.count("repeats at marked distances", k as u64);
            });
            let n = r.n(16, 160);
            r.cases("long-three-way", n, |c| {
                // the brute-force source, asked at a few bits of a long input
                let len = if c.index < 4 { 70_000 + c.rng.usize(0, 10_000) } else { c.rng.log_uniform(60_000) as usize + 10_000 };
                let (k, data) = if c.rng.bool() { let (k, d) = vh::data::any(len, &mut c.rng); (k.to_string(), d) }
                    else { let (k, d) = vh::data::distances(&mut c.rng, len.max(20_000)); (format!("{} marked repeats", k), d) };
                let mut s = setup(c, data.len(), true);
                s.order = s.order.min(20);
                s.sampled = 80.0 / (8.0 * data.len() as f64);
                c.desc(format!("{} {} bytes order {} window {} shift {}", k, data.len(), s.order, s.window, s.shift));
                run(c, &data, &s, &luts);
            });
            let n = r.n(24, 600);
            r.cases("high-orders", n, |c| {
                // contexts far longer than any order in use
                let k = *c.rng.pick(&["periodic", "period-glitch", "two-level", "copy-mutate", "constant", "runs"]);
                let len = c.rng.usize(150, 1_200);
                let data = if k == "two-level" { vh::data::hostile(&mut c.rng, len).1 } else { vh::data::by_kind(k, len, &mut c.rng) };
                let mut s = setup(c, data.len(), false);
                s.naive = data.len() < 400;
                s.order = c.rng.usize(64, 600);
                c.desc(format!("{} {} bytes order {} window {} shift {} costs {} data {}", k, data.len(), s.order, s.window, s.shift, s.feed_costs, vh::data::hex(&data)));
                run(c, &data, &s, &luts);
                c.count("inputs at orders above 63", 1);
            });
            let n = r.n(2, 12);
            r.cases("many-contexts", n, |c| {
                // more branching contexts than 16 (and in thorough 20) bits can number
                let len = if c.thorough { 1_200_000 } else { 100_000 + 50_000 * c.index as usize };
                let filler = (0..len).map(|_| c.rng.u8() & 0x7f).collect();
                let (k, data) = vh::data::distances_in(&mut c.rng, filler);
                let mut s = setup(c, len, false);
                s.order = *c.rng.pick(&[2, 3, 4]);
                c.desc(format!("random with {} repeats at marked distances, {} bytes order {} shift {} of {}", k, len, s.order, s.shift, s.window));
                run(c, &data, &s, &luts);
            });
            let n = r.n(2, 20);
            r.cases("very-long-runs", n, |c| {
                let len = c.rng.usize(65_400, 67_000) + if c.index == 1 { 66_000 } else { 0 };
                let a = c.rng.u8();
                let mut data = vec![a; len];
                if c.index % 2 == 1 { data.splice(0..0, [a ^ 0x10, a, a ^ 1]); }
                for _ in 0..5 { data.push(a ^ (1 << c.rng.below(8))); data.extend([a; 40]); }
                let mut s = setup(c, data.len(), false);
                s.order = *c.rng.pick(&[0, 1, 2, 5]);
                c.desc(format!("{} x {:02x}, order {}", len, a, s.order));
                run(c, &data, &s, &luts);
            });
            // all strings over a two-symbol alphabet up to a length
            let lim = r.n(9, 12) as usize;
            let pairs: &[(u8, u8)] = &[(0, 1), (0, 0x80), (0x55, 0xaa), (0x10, 0x18)];
            r.cases("all-short-strings", pairs.len() as u64 * (1 << lim), |c| {
                let (a, b) = pairs[(c.index >> lim) as usize];
                let code = c.index & ((1 << lim) - 1);
                let data: Vec<u8> = (0..lim).map(|i| if code >> i & 1 == 1 { b } else { a }).collect();
                let order = c.rng.usize(0, lim + 1);
                let s = Setup { naive: true, sampled: 1.0, feed_costs: false, window: lim, shift: c.rng.usize(0, lim - 1), order };
                c.desc(format!("order {} data {}", order, vh::data::hex(&data)));
                run(c, &data, &s, &luts);
            });
            r.exhaustive("all strings of the chosen length over four two-symbol alphabets");
            r.require("repeats at marked distances", 100);
            r.require("three-way comparisons", 100_000);
            r.require("three-way comparisons more than 65536 bytes in", 30);
            r.require("branching contexts compared", 100_000);
        });
}
