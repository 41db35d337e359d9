//! C18: per-context statistics follow exactly from the input seen so far.
#[path = "../dx/hist.rs"]
#[allow(dead_code)]
mod hist;
use demixer::bit::Bit;
use demixer::history::fat_map::FatMapHistorySource;
use demixer::history::naive::NaiveHistorySource;
use demixer::history::state::bits_runs::BitsRunsTracker;
use demixer::history::state::recent_bits::RecentBitsHistory;
use demixer::history::tree::node::CostTrackers;
use demixer::history::tree::TreeHistorySource;
use demixer::history::{CollectedContextStates, HistorySource};
use demixer::lut::LookUpTables;
use hist::*;
use vh::{ensure, Case};

fn drive<'a, S: HistorySource<'a>>(c: &mut Case, mut src: S, data: &[u8], order: usize,
                                   feed_costs: bool, luts: &LookUpTables) {
    let mut model = FullModel::new(order, luts);
    let mut col = CollectedContextStates::new(order);
    for (at, &byte) in data.iter().enumerate() {
        c.guarded("starting a byte", || src.start_new_byte());
        model.start_new_byte();
        for bi in (0..8).rev() {
            col.reset();
            c.guarded("gathering contexts", || src.gather_history_states(&mut col));
            if let Some(m) = model.mismatch(col.items()) {
                c.fail(format!("byte {} bit {}: {}", at, bi, m));
            }
            c.count("context states checked against raw input", col.items().len() as u64);
            let saturated = col.items().iter().filter(|s| s.occurrence_count() == 1000).count();
            c.count("saturated context states", saturated as u64);
            let nodes = model.node_count();
            let feed: Vec<CostTrackers> = (0..nodes).map(|_|
                if feed_costs { trackers(&mut c.rng) } else { CostTrackers::DEFAULT }).collect();
            let bit = (byte >> bi) & 1 == 1;
            c.guarded("processing a bit", || src.process_input_bit(Bit::from(bit), &feed));
            model.push_bit(bit, &feed);
        }
    }
    c.sig_bytes(data);
    c.sig(order as u64);
    if data.len() > 2 { c.nontrivial(); }
}

fn recorders(c: &mut Case, bits: &[bool], start: usize) {
    // recorders created empty, from a run, or at the moment a run is broken
    let b0 = bits[0];
    let run = bits.iter().take_while(|&&b| b == b0).count();
    let (mut rec, mut runs, mut used) = match start {
        0 => (RecentBitsHistory::for_bit_run(Bit::from(b0), 0), BitsRunsTracker::new(), 0),
        1 => (RecentBitsHistory::for_bit_run(Bit::from(b0), run as u16),
              BitsRunsTracker::for_bit_run(Bit::from(b0), run as u16), run),
        _ => {
            if run == bits.len() { return; }
            (RecentBitsHistory::for_new_node(Bit::from(!b0), run as u16),
             BitsRunsTracker::for_new_node(Bit::from(!b0), run as u16), run + 1)
        }
    };
    loop {
        let seen = &bits[..used];
        let raw = recent_raw(seen);
        ensure!(c, rec.is_valid(), "invalid recent bits");
        ensure!(c, rec == RecentBitsHistory::new_unchecked(raw), "after {} bits the recorder is {:?}, must hold {:b}", used, rec, raw);
        let ones = raw.count_ones() as u8 - 1;
        let zeros = 15 - raw.leading_zeros() as u8 - ones;
        ensure!(c, rec.histogram() == (ones << 4 | zeros), "histogram {:x}", rec.histogram());
        let want7 = if raw >= 128 { 128 | (raw & 127) } else { raw } as u8;
        ensure!(c, rec.last_7_bits() == want7, "last bits {:b}", rec.last_7_bits());
        let (a, b, d) = run_lengths(seen);
        if used > 0 {
            // an empty tracker is indistinguishable from one with a zero-length run of 0
            let last = seen[used - 1];
            if let Some(m) = runs_mismatch(&runs, last, a, b, d) { c.fail(format!("after {} bits: {}", used, m)); }
            ensure!(c, runs.is_single_bit_run() == (b == 0), "single-run flag after {} bits: runs {} {} {}", used, a, b, d);
        }
        c.count("recorder states checked", 1);
        c.seen("recorder states", (raw as u64) << 32 | (a.min(1000) as u64) << 20 | (b.min(1000) as u64) << 10 | d.min(1000) as u64);
        if used == bits.len() { break; }
        rec = rec.updated(Bit::from(bits[used]));
        runs = runs.updated(Bit::from(bits[used]));
        used += 1;
    }
    c.nontrivial();
}

fn main() {
    vh::check("C18", "exploration",
        "case = one input driven through one real history source with every reported context state compared with a model computed from raw bytes, or one bit string driven through the bit recorders; distinct by input and order",
        |r| {
            let luts = LookUpTables::new();
            let go = |c: &mut Case, len: usize, kinds: &[&str], which: u64, order: usize| {
                let k = *c.rng.pick(kinds);
                let data = vh::data::by_kind(k, len, &mut c.rng);
                let window = len + c.rng.usize(0, 3);
                let costs = which != 0 && c.rng.bool();
                c.desc(format!("source {} {} {} bytes order {} data {}", which, k, len, order, vh::data::hex(&data)));
                match which {
                    0 => drive(c, NaiveHistorySource::new(window, order, &luts), &data, order, false, &luts),
                    1 => drive(c, FatMapHistorySource::new(window, order, &luts), &data, order, costs, &luts),
                    _ => { let sh = c.rng.usize(0, window - 1);
                           drive(c, TreeHistorySource::new_special(window, order, sh, &luts), &data, order, costs, &luts) }
                }
            };
            let n = r.n(6000, 120_000);
            r.cases("small-inputs", n, |c| {
                let len = c.rng.log_uniform(200) as usize;
                let which = c.rng.below(3);
                let order = *c.rng.pick(&[0, 1, 2, 3, 5, 8, 20, 63]);
                go(c, len, vh::data::KINDS, which, order);
            });
            let n = r.n(600, 20_000);
            r.cases("medium-inputs", n, |c| {
                let len = c.rng.usize(500, 3000);
                let which = 1 + c.rng.below(2);
                let order = *c.rng.pick(&[0, 1, 3, 6, 20, 40]);
                go(c, len, vh::data::KINDS, which, order);
            });
            let n = r.n(48, 800);
            r.cases("saturation", n, |c| {
                let len = c.rng.usize(1005, 4500);
                let which = 1 + c.rng.below(2);
                let order = *c.rng.pick(&[0, 1, 2, 6, 12]);
                go(c, len, &["constant", "runs", "period-glitch", "binary-alphabet", "periodic"], which, order);
            });
            let n = r.n(16, 200);
            r.cases("long-run-then-break", n, |c| {
                // a deterministic context repeated around the limit, then broken
                let before = *c.rng.pick(&[997usize, 998, 999, 1000, 1001, 1002, 1023, 1024, 1030, 1500, 2100]);
                let a = c.rng.u8();
                let b = a ^ (1 << c.rng.below(8));
                let mut data = vec![a; before];
                data.push(b);
                let more = c.rng.usize(0, 1200);
                data.extend(std::iter::repeat(*c.rng.pick(&[a, b])).take(more));
                data.extend([a, b, a, a, b]);
                let order = *c.rng.pick(&[0, 1, 2, 5]);
                let which = 1 + c.rng.below(2);
                c.desc(format!("source {} run of {} x {:02x}, one {:02x}, {} more, order {}", which, before, a, b, more, order));
                let w = data.len();
                if which == 1 { drive(c, FatMapHistorySource::new(w, order, &luts), &data, order, true, &luts) }
                else { drive(c, TreeHistorySource::new(w, order, &luts), &data, order, true, &luts) }
            });
            let n = r.n(3, 40);
            r.cases("far-repeats", n, |c| {
                let len = if c.index == 0 { 145_000 } else { c.rng.usize(20_000, 145_000) };
                let (k, data) = vh::data::distances(&mut c.rng, len);
                let order = *c.rng.pick(&[2, 3, 4]);
                let which = if c.index == 0 { 2 } else { 1 + c.rng.below(2) };
                c.desc(format!("source {} {} repeats at marked distances, {} bytes order {}", which, k, len, order));
                let w = len + c.rng.usize(0, 3);
                if which == 1 { drive(c, FatMapHistorySource::new(w, order, &luts), &data, order, true, &luts) }
                else { let sh = c.rng.usize(0, w - 1); drive(c, TreeHistorySource::new_special(w, order, sh, &luts), &data, order, true, &luts) }
                c.count("repeats at marked distances", k as u64);
            });
            let n = r.n(24, 600);
            r.cases("high-orders", n, |c| {
                let len = c.rng.usize(80, 280);
                let which = c.rng.below(3);
                let order = c.rng.usize(64, 300);
                go(c, len, &["periodic", "period-glitch", "copy-mutate", "constant", "runs"], which, order);
            });
            let n = r.n(2, 12);
            r.cases("many-contexts", n, |c| {
                // more branching contexts than 16 bits can number
                let len = if c.thorough { 400_000 } else { 90_000 };
                let filler = (0..len).map(|_| c.rng.u8() & 0x7f).collect();
                let (k, data) = vh::data::distances_in(&mut c.rng, filler);
                let order = *c.rng.pick(&[2, 3]);
                c.desc(format!("source {} random with {} repeats at marked distances, {} bytes order {}", 2 - c.index % 2, k, len, order));
                if c.index % 2 == 1 { drive(c, FatMapHistorySource::new(len, order, &luts), &data, order, true, &luts) }
                else { let sh = c.rng.usize(0, len - 1); drive(c, TreeHistorySource::new_special(len, order, sh, &luts), &data, order, true, &luts) }
                c.count("repeats at marked distances", k as u64);
            });
            let n = r.n(3, 30);
            r.cases("very-long-runs", n, |c| {
                // one value for longer than 16 bits can count, then something else
                let len = c.rng.usize(65_400, 67_000) + if c.index == 2 { 66_000 } else { 0 };
                let a = c.rng.u8();
                let mut data = vec![a; len];
                if c.rng.bool() { data.splice(0..0, [a ^ 0x10, a, a ^ 1]); }
                for _ in 0..5 { data.push(a ^ (1 << c.rng.below(8))); data.extend([a; 40]); }
                let order = *c.rng.pick(&[0, 1, 2]);
                let which = if c.index == 0 { 2 } else { 1 + c.rng.below(2) };
                c.desc(format!("source {} {} x {:02x} order {}", which, len, a, order));
                let w = data.len();
                if which == 1 { drive(c, FatMapHistorySource::new(w, order, &luts), &data, order, true, &luts) }
                else { let sh = c.rng.usize(0, w - 1); drive(c, TreeHistorySource::new_special(w, order, sh, &luts), &data, order, true, &luts) }
            });
            r.cases("recorders-all-short", 3 << 17, |c| {
                let start = (c.index >> 17) as usize;
                let code = c.index & ((1 << 17) - 1);
                if code < 2 { return; }
                let n = 63 - code.leading_zeros();
                let bits: Vec<bool> = (0..n).map(|i| code >> i & 1 == 1).collect();
                c.sig(c.index);
                recorders(c, &bits, start);
            });
            r.exhaustive("all bit strings of length 1..16 through both recorders, three ways of creating them");
            let n = r.n(3000, 60_000);
            r.cases("recorders-long", n, |c| {
                let mut bits = vec![];
                let total = c.rng.log_uniform(6000) as usize;
                let mut b = c.rng.bool();
                while bits.len() < total {
                    let l = if c.rng.bool() { c.rng.usize(990, 1100) } else { c.rng.log_uniform(1500) as usize };
                    bits.extend(std::iter::repeat(b).take(l));
                    b = !b;
                }
                let start = c.rng.usize(0, 2);
                c.desc(format!("start {} {} bits", start, bits.len()));
                c.sig(bits.len() as u64); c.sig(c.index);
                recorders(c, &bits, start);
            });
            r.require("repeats at marked distances", 100);
            r.require("context states checked against raw input", 1_000_000);
            r.require("saturated context states", 1000);
            r.require("recorder states checked", 100_000);
        });
}
