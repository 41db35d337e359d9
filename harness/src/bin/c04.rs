//! C04: while the window slides, the tree reports exactly the contexts that
//! occur inside the window.
#[path = "../dx/hist.rs"]
#[allow(dead_code)]
mod hist;
use demixer::bit::Bit;
use demixer::history::state::bits_runs::BitsRunsTracker;
use demixer::history::state::recent_bits::RecentBitsHistory;
use demixer::history::tree::node::CostTrackers;
use demixer::history::tree::TreeHistorySource;
use demixer::history::{CollectedContextStates, ContextState, HistorySource};
use demixer::lut::LookUpTables;
use hist::*;
use vh::{ensure, Case};

fn drive(c: &mut Case, data: &[u8], window: usize, order: usize, shift: usize, drain: f64, luts: &LookUpTables) {
    let mut src = c.guarded("construction", || TreeHistorySource::new_special(window, order, shift, luts));
    let mut model = WindowModel::new(window, order);
    let mut col = CollectedContextStates::new(order);
    // what was reported, and which costs were fed, at every earlier bit
    let mut trace: Vec<[Vec<(ContextState, Option<CostTrackers>)>; 8]> = (0..data.len()).map(|_| Default::default()).collect();
    let mut sliding_compared = 0u64;
    for (at, &byte) in data.iter().enumerate() {
        if drain > 0.0 && c.rng.chance(drain) {
            let n = c.rng.usize(0, src.tree.window.size());
            c.guarded(&format!("shrinking the window before byte {}", at), ||
                for _ in 0..n { src.tree.remove_leftmost_suffix(&mut src.active_contexts) });
            model.drained = at - src.tree.window.size();
            c.count("extra shrinks", 1);
        }
        c.guarded(&format!("starting byte {}", at), || src.start_new_byte());
        model.start_new_byte();
        let sliding = model.window_start() > 0;
        for bi in (0..8).rev() {
            col.reset();
            c.guarded(&format!("gathering at byte {} bit {}", at, bi), || src.gather_history_states(&mut col));
            let got = col.items();
            if got.len() != model.cands.len() {
                c.fail(format!("byte {} bit {}: {} contexts reported, the last {} bytes hold {}: {:?}",
                    at, bi, got.len(), window, model.cands.len(), got));
            }
            for (o, (g, cand)) in got.iter().zip(&model.cands).enumerate() {
                let last = *cand.last().unwrap();
                let inside = cand.len();
                let d = at - last as usize;
                ensure!(c, g.last_occurrence_distance() == d,
                    "byte {} bit {} order {}: last occurrence inside the window is {} back; reported {:?}", at, bi, o, d, g);
                let first_bit = model.bit_after(cand[0]);
                let past = &trace[last as usize][7 - bi];
                let followed = Bit::from(model.bit_after(last));
                match past.get(o) {
                    Some((ContextState::ForNode { probability_estimator: pe, recent_bits: rb, bits_runs: br, .. }, fed)) => {
                        if let ContextState::ForNode { probability_estimator, recent_bits, bits_runs, cost_trackers, .. } = g {
                            let mut e = *pe;
                            e.update(followed, luts.d_estimator_rates());
                            ensure!(c, *probability_estimator == e && *recent_bits == rb.updated(followed) && *bits_runs == br.updated(followed)
                                && Some(cost_trackers) == fed.as_ref(),
                                "byte {} bit {} order {}: at byte {} this context was {:?}, got bit {} and costs {:?}; reported now {:?}",
                                at, bi, o, last, past[o].0, followed, fed, g);
                            c.count("branching state transitions checked", 1);
                        } else {
                            c.count("branching contexts that lost a branch", 1);
                        }
                    }
                    Some((ContextState::ForEdge { occurrence_count: n, repeated_bit: rb, .. }, _)) => {
                        match g {
                            ContextState::ForEdge { occurrence_count, .. } => {
                                if *rb == followed {
                                    ensure!(c, *occurrence_count as usize >= inside.min(CAP), "unreachable");
                                    if *occurrence_count == (*n + 1).min(1000) { c.count("deterministic repeats counted up by one", 1); }
                                    else { c.count("deterministic repeats after the window shortened an edge", 1); }
                                } else { c.count("deterministic contexts whose older branch left the window", 1); }
                            }
                            ContextState::ForNode { probability_estimator, recent_bits, bits_runs, cost_trackers, .. } => {
                                let ct = luts.cost_trackers_lut().for_new_node(*n);
                                ensure!(c, *probability_estimator == luts.d_estimator_cache().for_new_node(followed, *n)
                                    && *recent_bits == RecentBitsHistory::for_new_node(followed, *n)
                                    && *bits_runs == BitsRunsTracker::for_new_node(followed, *n)
                                    && *cost_trackers == CostTrackers::new(ct, ct),
                                    "byte {} bit {} order {}: at byte {} this context was {:?} and then got bit {}; reported now {:?}",
                                    at, bi, o, last, past[o].0, followed, g);
                                c.count("deterministic to branching transitions checked", 1);
                            }
                        }
                    }
                    None => c.count("contexts seen a second time", 1),
                }
                let mixed = cand.iter().any(|&p| model.bit_after(p) != first_bit);
                match g {
                    ContextState::ForEdge { repeated_bit, occurrence_count, .. } => {
                        ensure!(c, !mixed, "byte {} bit {} order {}: both bits follow inside the window; reported {:?}", at, bi, o, g);
                        ensure!(c, repeated_bit.is_1() == first_bit, "byte {} bit {} order {}: bit {} follows inside the window; reported {:?}", at, bi, o, first_bit as u8, g);
                        ensure!(c, *occurrence_count as usize >= inside.min(CAP) && *occurrence_count <= 1000,
                            "byte {} bit {} order {}: occurs {} times inside the window; reported {:?}", at, bi, o, inside, g);
                        c.count("deterministic contexts checked while sliding", sliding as u64);
                    }
                    ContextState::ForNode { recent_bits, bits_runs, probability_estimator, .. } => {
                        ensure!(c, mixed, "byte {} bit {} order {}: only bit {} follows inside the window; reported {:?}", at, bi, o, first_bit as u8, g);
                        ensure!(c, probability_estimator.usage_count() as usize >= inside.min(CAP),
                            "byte {} bit {} order {}: occurs {} times inside the window; reported {:?}", at, bi, o, inside, g);
                        // bits that followed inside the window are the most recent ones
                        let bits: Vec<bool> = cand.iter().map(|&p| model.bit_after(p)).collect();
                        let keep = bits.len().min(7);
                        let want = bits[bits.len() - keep..].iter().fold(0u8, |a, &b| a << 1 | b as u8);
                        let mask = ((1u16 << keep) - 1) as u8;
                        ensure!(c, recent_bits.last_7_bits() & mask == want,
                            "byte {} bit {} order {}: the bits following inside the window end in {:b}; reported {:?}", at, bi, o, want, g);
                        let raw = recent_raw(&bits);
                        let (ones, zeros) = (raw.count_ones() - 1, 16 - raw.leading_zeros() - raw.count_ones());
                        let h = recent_bits.histogram() as u32;
                        ensure!(c, if bits.len() >= 15 { *recent_bits == RecentBitsHistory::new_unchecked(raw) } else { h >> 4 >= ones && h & 15 >= zeros },
                            "byte {} bit {} order {}: recorded bits {:?} lost some of {:b}", at, bi, o, recent_bits, raw);
                        ensure!(c, bits_runs.last_bit().is_1() == *bits.last().unwrap(),
                            "byte {} bit {} order {}: last following bit; reported {:?}", at, bi, o, g);
                        let (a, b, _) = run_lengths(&bits);
                        ensure!(c, bits_runs.last_bit_run_length() as usize == a.min(CAP) , // the run is broken inside the window
                            "byte {} bit {} order {}: last run inside the window is {}; reported {:?}", at, bi, o, a, g);
                        ensure!(c, bits_runs.opposite_bit_run_length() as usize >= b.min(CAP),
                            "byte {} bit {} order {}: run before it is at least {}; reported {:?}", at, bi, o, b, g);
                        c.count("branching contexts checked while sliding", sliding as u64);
                    }
                }
            }
            if sliding { sliding_compared += 1; }
            let nodes = got.iter().take_while(|x| x.is_for_node()).count();
            ensure!(c, got[nodes..].iter().all(|x| !x.is_for_node()), "byte {} bit {}: branching above deterministic", at, bi);
            let feed: Vec<CostTrackers> = (0..nodes).map(|_| trackers(&mut c.rng)).collect();
            trace[at][7 - bi] = got.iter().enumerate().map(|(o, g)| (g.clone(), feed.get(o).cloned())).collect();
            let bit = (byte >> bi) & 1 == 1;
            c.guarded(&format!("processing byte {} bit {}", at, bi), || src.process_input_bit(Bit::from(bit), &feed));
            model.push_bit(bit);
        }
        c.seen("window contents digests", vh::hash_bytes(window as u64, &data[model.window_start().min(data.len())..at + 1]));
    }
    c.count("context lists compared while sliding", sliding_compared);
    c.count("bytes slid out", data.len().saturating_sub(window) as u64);
    c.sig_bytes(data);
    c.sig((window as u64) << 8 | order as u64);
    if sliding_compared > 0 { c.nontrivial(); }
}

/// Large windows: the window is rescanned only in front of sampled bytes.
fn sampled(c: &mut Case, data: &[u8], window: usize, order: usize, shift: usize, picks: &[bool], luts: &LookUpTables) {
    let mut src = c.guarded("construction", || TreeHistorySource::new_special(window, order, shift, luts));
    let mut col = CollectedContextStates::new(order);
    for (at, &byte) in data.iter().enumerate() {
        c.guarded(&format!("starting byte {}", at), || src.start_new_byte());
        let ws = (at + 1).saturating_sub(window);
        let mut cands: Vec<Vec<u32>> = vec![];
        if picks[at] {
            let mut v: Vec<u32> = (ws as u32..at as u32).collect();
            for k in 0..=order {
                if k > 0 {
                    if k > at { break; }
                    v.retain(|&p| p as usize >= k + ws && data[p as usize - k] == data[at - k]);
                }
                if v.is_empty() { break; }
                cands.push(v.clone());
            }
        }
        for bi in (0..8).rev() {
            col.reset();
            c.guarded(&format!("gathering at byte {} bit {}", at, bi), || src.gather_history_states(&mut col));
            let got = col.items();
            let nodes = got.iter().take_while(|x| x.is_for_node()).count();
            if picks[at] {
                ensure!(c, got.len() == cands.len(), "byte {} bit {}: {} contexts reported, the last {} bytes hold {}: {:?}", at, bi, got.len(), window, cands.len(), got);
                for (o, (g, cand)) in got.iter().zip(&cands).enumerate() {
                    let d = at - *cand.last().unwrap() as usize;
                    let after = |p: u32| (data[p as usize] >> bi) & 1 == 1;
                    ensure!(c, g.last_occurrence_distance() == d, "byte {} bit {} order {}: last occurrence inside the window is {} back; reported {:?}", at, bi, o, d, g);
                    let mixed = cand.iter().any(|&p| after(p) != after(cand[0]));
                    match g {
                        ContextState::ForEdge { repeated_bit, occurrence_count, .. } => {
                            ensure!(c, !mixed && repeated_bit.is_1() == after(cand[0]) && *occurrence_count as usize >= cand.len().min(CAP) && *occurrence_count <= 1000,
                                "byte {} bit {} order {}: occurs {} times inside the window, last followed by {}, {}; reported {:?}", at, bi, o, cand.len(), after(*cand.last().unwrap()) as u8, if mixed { "not always" } else { "always" }, g);
                        }
                        ContextState::ForNode { recent_bits, bits_runs, probability_estimator, .. } => {
                            let keep = cand.len().min(7);
                            let want = cand[cand.len() - keep..].iter().fold(0u8, |a, &p| a << 1 | after(p) as u8);
                            let mask = ((1u16 << keep) - 1) as u8;
                            ensure!(c, mixed && recent_bits.last_7_bits() & mask == want && bits_runs.last_bit().is_1() == after(*cand.last().unwrap())
                                    && probability_estimator.usage_count() as usize >= cand.len().min(CAP),
                                "byte {} bit {} order {}: occurs {} times inside the window, {}, last bits {:b}; reported {:?}", at, bi, o, cand.len(), if mixed { "both bits follow" } else { "one bit follows" }, want, g);
                        }
                    }
                    c.max("farthest last occurrence checked", d as f64);
                }
                c.count("context lists compared in large windows", 1);
                if ws > 0 { c.count("context lists compared while sliding", 1); c.nontrivial(); }
            }
            let feed: Vec<CostTrackers> = vec![CostTrackers::DEFAULT; nodes];
            let bit = (byte >> bi) & 1 == 1;
            c.guarded(&format!("processing byte {} bit {}", at, bi), || src.process_input_bit(Bit::from(bit), &feed));
            for v in cands.iter_mut() { v.retain(|&p| ((data[p as usize] >> bi) & 1 == 1) == bit); }
            if let Some(n) = cands.iter().position(|v| v.is_empty()) { cands.truncate(n); }
        }
    }
    c.count("bytes slid out", data.len().saturating_sub(window) as u64);
    c.sig_bytes(data);
    c.sig((window as u64) << 8 | order as u64);
}

fn main() {
    vh::check("C04", "exploration",
        "case = input longer than the window driven through the tree source; before every bit the reported contexts are compared with a scan of the last window bytes; non-trivial when the window slid; distinct by input, window and order",
        |r| {
            let luts = LookUpTables::new();
            let n = r.n(30_000, 600_000);
            r.cases("tiny-windows", n, |c| {
                let window = c.rng.usize(1, 24);
                let len = window * c.rng.usize(1, 12) + c.rng.usize(0, 30);
                let (k, data) = vh::data::any(len, &mut c.rng);
                let order = *c.rng.pick(&[0, 1, 2, 3, 5, 8, 20, 63]);
                let shift = c.rng.usize(0, window - 1);
                let drain = *c.rng.pick(&[0.0, 0.0, 0.01, 0.1]);
                c.desc(format!("{} {} bytes window {} order {} shift {} shrinks {} data {}", k, len, window, order, shift, drain, vh::data::hex(&data)));
                drive(c, &data, window, order, shift, drain, &luts);
            });
            let n = r.n(3000, 60_000);
            r.cases("medium-windows", n, |c| {
                let window = c.rng.usize(25, 300);
                let len = window + c.rng.usize(1, 5 * window);
                let (k, data) = vh::data::any(len, &mut c.rng);
                let order = *c.rng.pick(&[0, 1, 2, 3, 5, 8, 20, 63]);
                let shift = c.rng.usize(0, window - 1);
                let drain = *c.rng.pick(&[0.0, 0.0, 0.01, 0.1]);
                c.desc(format!("{} {} bytes window {} order {} shift {} shrinks {} data {}", k, len, window, order, shift, drain, vh::data::hex(&data)));
                drive(c, &data, window, order, shift, drain, &luts);
            });
            let n = r.n(24, 600);
            r.cases("large-windows", n, |c| {
                let window = c.rng.usize(300, if c.thorough { 5000 } else { 2500 });
                let len = window + c.rng.usize(window / 4, 2 * window);
                let (k, data) = if c.rng.chance(0.3) { ("marked distances", vh::data::distances(&mut c.rng, len).1) } else { vh::data::any(len, &mut c.rng) };
                let order = *c.rng.pick(&[1, 2, 3, 5, 8, 20]);
                let shift = c.rng.usize(0, window - 1);
                c.desc(format!("{} {} bytes window {} order {} shift {}", k, len, window, order, shift));
                drive(c, &data, window, order, shift, 0.0, &luts);
            });
            let n = r.n(8, 100);
            r.cases("sampled-large-windows", n, |c| {
                let top = if c.thorough { 400_000 } else { 150_000 };
                let window = if c.index == 0 { 140_000 } else if c.index == 1 { 66_800 } else { 5_000 + c.rng.log_uniform(top) as usize };
                let len = window + c.rng.usize(window / 8, window);
                let (k, mut data) = if c.index == 1 { ("constant then broken", {
                    let mut v = vec![0x41; len];
                    for i in (window - 5..len).step_by(1000) { v[i] ^= 1 << c.rng.below(8); }
                    v }) } else if c.index == 0 || c.rng.bool() { ("marked distances", vh::data::distances(&mut c.rng, len).1) } else {
                    let k = *c.rng.pick(&["blocks", "copy-mutate", "text", "shared-prefix-bits", "random", "runs", "period-glitch"]);
                    (k, vh::data::by_kind(k, len, &mut c.rng)) };
                let order = *c.rng.pick(&[2, 3, 5, 8, 20]);
                let shift = c.rng.usize(0, window - 1);
                // strings that come back when their only copy is about to leave
                for _ in 0..60 {
                    let d = window - c.rng.usize(0, 20);
                    if len <= d + 30 { continue; }
                    let p = c.rng.usize(d, len - 13);
                    let w = data[p - d..p - d + 12].to_vec();
                    data[p..p + 12].copy_from_slice(&w);
                }
                let every = (window / 300).max(20);
                let marked = k == "marked distances";
                let picks: Vec<bool> = (0..len).map(|i| (if marked { data[i] >= 0x80 && c.rng.chance(0.5) } else { c.rng.chance(0.01) && c.rng.usize(0, every) == 0 }) || c.rng.chance(1.0 / every as f64)).collect();
                c.desc(format!("{} {} bytes window {} order {} shift {}", k, len, window, order, shift));
                sampled(c, &data, window, order, shift, &picks, &luts);
            });
            let n = r.n(1, 4);
            r.cases("default-window", n, |c| {
                // the window that the predictor uses, full of different contexts
                let window = 10_000_000;
                let len = window + 250_000;
                let filler: Vec<u8> = (0..len).map(|i| if c.index % 2 == 0 || i % 64 == 0 { c.rng.u8() & 0x7f } else { (i / 5 % 100) as u8 }).collect();
                let (k, data) = vh::data::distances_in(&mut c.rng, filler);
                let order = [5, 20][c.index as usize / 2 % 2];
                let shift = c.rng.usize(0, window - 1);
                // mostly second copies whose first one is far away
                let mut picks = vec![false; len];
                let mut budget = 250;
                let mut last = std::collections::HashMap::new();
                for i in 0..len - 8 {
                    if data[i] < 0x80 || (i > 0 && data[i - 1] >= 0x80) { continue; }
                    let key = data[i..i + 4].to_vec();
                    if let Some(p) = last.insert(key, i) {
                        let d: usize = i - p;
                        if (d > 150_000 || c.rng.chance(0.05)) && budget > 0 { picks[i + 3] = true; picks[i + 4] = true; budget -= 1; }
                    }
                }
                for _ in 0..10 { let i = c.rng.usize(window, len - 1); picks[i] = true; }
                c.desc(format!("{} repeats at marked distances, {} bytes, window {} order {} shift {}", k, len, window, order, shift));
                sampled(c, &data, window, order, shift, &picks, &luts);
                c.count("default window filled and slid", 1);
            });
            r.require("default window filled and slid", 1);
            r.require("context lists compared in large windows", 5_000);
            r.require("context lists compared while sliding", 100_000);
        });
}
