//! C23: out-of-order use of stateful components is always refused, legal
//! use never. A random legal walk on the real object, then one illegal call.
use demixer::bit::Bit;
use demixer::coding::FinalProbability;
use demixer::estimators::cost::CostTracker;
use demixer::fixed_point::types::{FractOnlyU32, StretchedProbD};
use demixer::fixed_point::FixedPoint;
use demixer::history::tree::node::CostTrackers;
use demixer::history::tree::TreeHistorySource;
use demixer::history::{CollectedContextStates, HistorySource};
use demixer::lut::LookUpTables;
use demixer::mixing::apm::AdaptiveProbabilityMap;
use demixer::mixing::mixer::{FixedSizeMixer, Mixer, Mixer1, Mixer2, Mixer3, Mixer4, Mixer5, MixerInitializationMode, MixerN};
use demixer::predictor::chain::ContextsChainPredictionMixer;
use demixer::predictor::kits::{EstimatorsWithIndexer, MixersWithIndexer};
use demixer::predictor::post_process::PredictionFinalizer;
use demixer::predictor::stats::PredictionStatistics;
use demixer::predictor::Predictor;
use demixer::util::indexer::*;
use demixer::util::last_bytes::LastBytesCache;
use vh::{data, ensure, rejects, Case};

fn refused(c: &mut Case, kind: &'static str, f: impl FnOnce()) {
    c.desc(format!("{} after a legal walk", kind));
    c.sig_bytes(kind.as_bytes());
    c.nontrivial();
    let r = rejects(f);
    ensure!(c, r, "not refused: {}", kind);
    c.count(kind, 1);
    c.count("illegal calls refused", 1);
}

/// bits coded before the illegal call
fn walk_len(c: &mut Case) -> usize {
    match c.rng.below(5) {
        0 => c.rng.usize(0, 9),
        1 => 8 * c.rng.usize(0, 6),
        2 => 8 * c.rng.usize(0, 300),
        _ => c.rng.log_uniform(3_000) as usize,
    }
}

fn walk_bytes(c: &mut Case, bits: usize) -> Vec<u8> {
    let v = data::any(bits / 8 + 1, &mut c.rng).1;
    c.sig_bytes(&v[..bits / 8]);
    c.sig(bits as u64);
    let mut v = v;
    v.resize(bits / 8 + 1, 7);
    v
}

fn bit_of(v: &[u8], k: usize) -> bool {
    (v[k / 8] >> (7 - k % 8)) & 1 == 1
}

fn feeds(c: &mut Case, got: &CollectedContextStates) -> Vec<CostTrackers> {
    got.items().iter().filter(|x| x.is_for_node())
        .map(|_| CostTrackers::new(CostTracker::new(c.rng.u64() as u16), CostTracker::new(c.rng.u64() as u16))).collect()
}

fn tree(c: &mut Case, luts: &LookUpTables) {
    let bits = walk_len(c);
    let v = walk_bytes(c, bits);
    let order = c.rng.usize(0, 30);
    let window = match c.rng.below(3) { 0 => c.rng.usize(1, 12), 1 => bits / 8 + 2, _ => 1 + c.rng.log_uniform(400) as usize };
    let mut s = c.guarded("creating the source", || TreeHistorySource::new_special(window, order, c.index as usize % window, luts));
    let mut got = CollectedContextStates::new(order);
    for k in 0..bits {
        if k % 8 == 0 {
            c.guarded("starting a byte", || s.start_new_byte());
        }
        got.reset();
        c.guarded("gathering", || s.gather_history_states(&mut got));
        if c.rng.chance(0.1) {
            // gathering again is legal
            got.reset();
            c.guarded("gathering again", || s.gather_history_states(&mut got));
        }
        let f = feeds(c, &got);
        c.guarded("processing a bit", || s.process_input_bit(Bit::from(bit_of(&v, k)), &f));
        c.count("legal calls", 3);
    }
    got.reset();
    let bit = Bit::from(c.rng.bool());
    if bits % 8 == 0 && c.rng.chance(0.6) {
        // between bytes
        if c.rng.bool() {
            refused(c, "gathering between bytes", || s.gather_history_states(&mut got));
        } else {
            refused(c, "processing a bit between bytes", || s.process_input_bit(bit, &[]));
        }
        return;
    }
    if bits % 8 == 0 {
        c.guarded("starting a byte", || s.start_new_byte());
    }
    c.guarded("gathering", || s.gather_history_states(&mut got));
    let nodes = got.items().iter().filter(|x| x.is_for_node()).count();
    let mut f = feeds(c, &got);
    match c.rng.below(3) {
        0 if !got.items().is_empty() =>
            refused(c, "gathering into a collection already filled", || s.gather_history_states(&mut got)),
        1 if nodes > 0 => {
            f.truncate(c.rng.usize(0, nodes - 1));
            refused(c, "processing with too few cost records", || s.process_input_bit(bit, &f));
        }
        _ => refused(c, "starting a byte inside a byte", || s.start_new_byte()),
    }
}

fn predictor(c: &mut Case, luts: &LookUpTables) {
    let bits = walk_len(c) / 2;
    let v = walk_bytes(c, bits);
    let w = 1 + c.rng.log_uniform(500) as usize;
    let o = c.rng.usize(0, 20);
    let mut p = c.guarded("creating the predictor", || if c.index % 4 == 0 { Predictor::new(luts) } else { Predictor::with_window(w, o, luts) });
    for k in 0..bits {
        if k % 8 == 0 {
            c.guarded("starting a byte", || p.start_new_byte());
        }
        c.guarded("predicting", || { p.predict(); });
        c.guarded("updating", || p.update(Bit::from(bit_of(&v, k))));
        c.count("legal calls", 2);
    }
    let bit = Bit::from(c.rng.bool());
    if bits % 8 == 0 && c.rng.chance(0.4) {
        if c.rng.bool() {
            refused(c, "predicting between bytes", || { p.predict(); });
        } else {
            refused(c, "updating the predictor between bytes", || p.update(bit));
        }
        return;
    }
    if bits % 8 == 0 {
        c.guarded("starting a byte", || p.start_new_byte());
    }
    match c.rng.below(4) {
        0 => refused(c, "updating the predictor without a prediction", || p.update(bit)),
        1 => refused(c, "starting a byte inside a byte (predictor)", || p.start_new_byte()),
        k => {
            c.guarded("predicting", || { p.predict(); });
            if k == 2 {
                refused(c, "predicting twice", || { p.predict(); });
            } else {
                refused(c, "starting a byte while a prediction is pending", || p.start_new_byte());
            }
        }
    }
}

fn any_pair(c: &mut Case, luts: &LookUpTables) -> (FractOnlyU32, StretchedProbD) {
    let raw = match c.rng.below(4) {
        0 => 1,
        1 => (1u32 << 31) - 1,
        _ => 1 + c.rng.below((1 << 31) - 1) as u32,
    };
    let sq = FractOnlyU32::new(raw, 31);
    (sq, luts.stretch_lut().stretch(sq))
}

fn set(c: &mut Case, m: &mut impl Mixer, i: usize, luts: &LookUpTables) {
    let (sq, st) = any_pair(c, luts);
    c.guarded("setting an input", || m.set_input(i, sq, st));
    c.count("legal calls", 1);
}

fn mixer<M: Mixer>(c: &mut Case, mut m: M, initial: u16, luts: &LookUpTables) {
    let n = m.size();
    let steps = c.rng.log_uniform(60) as usize - 1;
    let limit = 500 + c.rng.below(501) as u16;
    let rates = luts.d_estimator_rates();
    for _ in 0..steps {
        let mut order: Vec<usize> = (0..n).collect();
        for k in 0..n {
            let j = c.rng.usize(k, n - 1);
            order.swap(k, j);
        }
        for i in order {
            set(c, &mut m, i, luts);
        }
        let (sq, _) = c.guarded("mixing", || m.mix_all(luts.squash_lut()));
        for i in 0..n {
            c.guarded("reading inputs", || { m.prediction_sq(i); m.prediction_st(i); m.weight(i); });
        }
        let bit = c.rng.bool();
        c.guarded("training", || m.update_and_reset(Bit::from(bit), sq, limit, rates));
        c.count("legal calls", 2);
    }
    c.sig((steps as u64) << 32 | (n as u64) << 16 | initial as u64);
    // some of the inputs
    let given: Vec<bool> = (0..n).map(|_| c.rng.chance(0.7)).collect();
    for i in 0..n {
        if given[i] {
            set(c, &mut m, i, luts);
        }
    }
    c.sig(given.iter().fold(0, |a, &g| a << 1 | g as u64));
    let (sq, st) = any_pair(c, luts);
    let on = given.iter().position(|&g| g);
    let off = given.iter().rposition(|&g| !g);
    match (c.rng.below(7), on, off) {
        (0, Some(i), _) => refused(c, "setting an input twice", || m.set_input(i, sq, st)),
        (1, _, Some(_)) => refused(c, "mixing with a missing input", || { m.mix_all(luts.squash_lut()); }),
        (2, _, Some(_)) => refused(c, "training with a missing input", || m.update_and_reset(Bit::One, sq, limit, rates)),
        (3, _, Some(i)) => refused(c, "reading a missing input (linear)", || { m.prediction_sq(i); }),
        (4, _, Some(i)) => refused(c, "reading a missing input (stretched)", || { m.prediction_st(i); }),
        (5, _, None) => refused(c, "training at a rate index above the limit", || m.update_and_reset(Bit::Zero, sq, 1001, rates)),
        (6, _, None) if steps > 0 || initial > 0 => {
            let reached = (initial as usize + steps).min(limit as usize) as u16;
            let below = c.rng.below(reached as u64) as u16;
            refused(c, "training at a rate index already passed", || m.update_and_reset(Bit::One, sq, below, rates));
        }
        _ => {
            let beyond = match c.rng.below(3) { 0 => n, 1 => n + 1, _ => n + c.rng.usize(0, 31 - n) };
            refused(c, "setting an input that does not exist", || m.set_input(beyond, sq, st));
        }
    }
}

fn mixers(c: &mut Case, luts: &LookUpTables) {
    let init = c.rng.range(0, 400) as u16;
    let mode = *c.rng.pick(&[MixerInitializationMode::AllZero, MixerInitializationMode::DominantFirst, MixerInitializationMode::EqualSummingToOne]);
    match c.rng.below(6) {
        0 => mixer(c, Mixer1::new(init, mode), init, luts),
        1 => mixer(c, Mixer2::new(init, mode), init, luts),
        2 => mixer(c, Mixer3::new(init, mode), init, luts),
        3 => mixer(c, Mixer4::new(init, mode), init, luts),
        4 => mixer(c, Mixer5::new(init, mode), init, luts),
        _ => { let n = c.rng.usize(1, 30); mixer(c, MixerN::new(n, init, mode), init, luts) }
    }
}

fn map(c: &mut Case, luts: &LookUpTables) {
    let res = c.rng.below(3) as u8;
    let contexts = c.rng.usize(1, 20);
    let mut m = c.guarded("creating the map", || AdaptiveProbabilityMap::new(contexts, res, luts.squash_lut()));
    let steps = c.rng.log_uniform(80) - 1;
    c.sig(steps << 8 | res as u64);
    for _ in 0..steps {
        let ctx = c.rng.usize(0, contexts - 1);
        let (sq, st) = any_pair(c, luts);
        c.guarded("refining", || { m.refine(ctx, sq, st, luts.apm_lut(res)); });
        let (bit, fixed, rate) = (c.rng.bool(), c.rng.bool(), c.rng.range(1, 20) as u8);
        c.guarded("training", || m.update_predictions(ctx, Bit::from(bit), rate, fixed));
        c.count("legal calls", 2);
    }
    let (sq, st) = any_pair(c, luts);
    let ctx = c.rng.usize(0, contexts - 1);
    match c.rng.below(6) {
        0 => refused(c, "training a map before refining", || m.update_predictions(ctx, Bit::One, 5, true)),
        1 => {
            c.guarded("refining", || { m.refine(ctx, sq, st, luts.apm_lut(res)); });
            refused(c, "refining twice", || { m.refine(ctx, sq, st, luts.apm_lut(res)); });
        }
        2 => {
            c.guarded("refining", || { m.refine(ctx, sq, st, luts.apm_lut(res)); });
            c.guarded("training", || m.update_predictions(ctx, Bit::Zero, 5, false));
            refused(c, "training a map twice", || m.update_predictions(ctx, Bit::Zero, 5, true));
        }
        3 => {
            c.guarded("refining", || { m.refine(ctx, sq, st, luts.apm_lut(res)); });
            let bad = contexts + c.rng.usize(0, 3);
            refused(c, "training a context that does not exist", || m.update_predictions(bad, Bit::Zero, 5, true));
        }
        4 => {
            let bad = contexts + c.rng.usize(0, 3);
            refused(c, "refining in a context that does not exist", || { m.refine(bad, sq, st, luts.apm_lut(res)); });
        }
        _ => refused(c, "refining with another resolution's tables", || { m.refine(ctx, sq, st, luts.apm_lut((res + 1) % 3)); }),
    }
}

fn cache(c: &mut Case) {
    let bits = walk_len(c);
    let v = walk_bytes(c, bits);
    let mut x = LastBytesCache::new();
    let all = |x: &LastBytesCache| {
        x.unfinished_byte(); x.previous_byte_1(); x.previous_byte_2(); x.previous_byte_3();
        x.hash01_16(); x.hash02_16(); x.hash03_16();
    };
    for k in 0..bits {
        if k % 8 == 0 {
            c.guarded("starting a byte", || x.start_new_byte());
        }
        c.guarded("reading", || all(&x));
        c.guarded("adding a bit", || x.on_next_bit(Bit::from(bit_of(&v, k))));
        c.count("legal calls", 8);
    }
    if bits % 8 == 0 && c.rng.chance(0.8) {
        match c.rng.below(8) {
            0 => refused(c, "adding a bit between bytes", || x.on_next_bit(Bit::One)),
            1 => refused(c, "reading the unfinished byte between bytes", || { x.unfinished_byte(); }),
            2 => refused(c, "reading the last byte between bytes", || { x.previous_byte_1(); }),
            3 => refused(c, "reading the byte before between bytes", || { x.previous_byte_2(); }),
            4 => refused(c, "reading the third last byte between bytes", || { x.previous_byte_3(); }),
            5 => refused(c, "hashing one byte between bytes", || { x.hash01_16(); }),
            6 => refused(c, "hashing two bytes between bytes", || { x.hash02_16(); }),
            _ => refused(c, "hashing three bytes between bytes", || { x.hash03_16(); }),
        }
        return;
    }
    if bits % 8 == 0 {
        c.guarded("starting a byte", || x.start_new_byte());
    }
    refused(c, "starting a byte inside a byte (cache)", || x.start_new_byte());
}

fn estimator_bank(c: &mut Case, luts: &LookUpTables) {
    let (a, b) = (c.rng.usize(1, 6), c.rng.usize(1, 6));
    let mut k = EstimatorsWithIndexer::new(Indexer2::new(vec![a, b]));
    let steps = c.rng.log_uniform(100) - 1;
    c.sig(steps << 16 | (a * 8 + b) as u64);
    for _ in 0..steps {
        let (i, j) = (c.rng.usize(0, a - 1), c.rng.usize(0, b - 1));
        c.guarded("predicting", || { k.predict(luts, |x| x.with_sub_index(i).with_sub_index(j)); });
        let bit = c.rng.bool();
        c.guarded("updating", || k.update(Bit::from(bit), luts));
        c.count("legal calls", 2);
    }
    let (i, j) = (c.rng.usize(0, a - 1), c.rng.usize(0, b - 1));
    match c.rng.below(3) {
        0 => refused(c, "updating an estimator bank without a prediction", || k.update(Bit::One, luts)),
        1 => {
            c.guarded("predicting", || { k.predict(luts, |x| x.with_sub_index(i).with_sub_index(j)); });
            refused(c, "predicting twice with an estimator bank", || { k.predict(luts, |x| x.with_sub_index(i).with_sub_index(j)); });
        }
        _ => refused(c, "predicting with an incomplete cell address", || { k.predict(luts, |x| x.with_sub_index(i)); }),
    }
}

fn mixer_bank(c: &mut Case, luts: &LookUpTables) {
    let (a, b) = (c.rng.usize(1, 5), c.rng.usize(1, 5));
    let mut k = MixersWithIndexer::new(|| Mixer2::new(10, MixerInitializationMode::DominantFirst), Indexer2::new(vec![a, b]));
    let steps = c.rng.log_uniform(60) - 1;
    c.sig(steps << 16 | (a * 8 + b) as u64);
    let step = |c: &mut Case, k: &mut MixersWithIndexer<Mixer2, Indexer2>, ahead: bool| {
        let (i, j) = (c.rng.usize(0, a - 1), c.rng.usize(0, b - 1));
        let (p, q) = (any_pair(c, luts), any_pair(c, luts));
        let add = |m: &mut Mixer2| { m.set_input(0, p.0, p.1); m.set_input(1, q.0, q.1); };
        if ahead {
            k.pre_predict(|x| x.with_sub_index(i));
            k.predict(|x| x.with_sub_index(j), add, luts);
        } else {
            k.predict(|x| x.with_sub_index(i).with_sub_index(j), add, luts);
        }
    };
    for _ in 0..steps {
        let ahead = c.rng.bool();
        step(c, &mut k, ahead);
        c.guarded("reading the mixer", || { k.current_mixer().prediction_sq(0); });
        let bit = c.rng.bool();
        c.guarded("updating", || { k.update(Bit::from(bit), 300, luts); });
        c.count("legal calls", 4);
    }
    match c.rng.below(5) {
        0 => refused(c, "updating a mixer bank without a prediction", || { k.update(Bit::One, 300, luts); }),
        1 => refused(c, "asking for the current mixer without a prediction", || { k.current_mixer(); }),
        2 => {
            step(c, &mut k, false);
            refused(c, "addressing a mixer while a prediction is pending", || k.pre_predict(|x| x.with_sub_index(0)));
        }
        3 => {
            step(c, &mut k, true);
            let h = (FractOnlyU32::HALF, StretchedProbD::ZERO);
            refused(c, "predicting twice with a mixer bank", || {
                k.predict(|x| x.with_sub_index(0).with_sub_index(0), |m| { m.set_input(0, h.0, h.1); m.set_input(1, h.0, h.1); }, luts);
            });
        }
        _ => {
            let h = (FractOnlyU32::HALF, StretchedProbD::ZERO);
            refused(c, "predicting with a mixer that misses an input", || {
                k.predict(|x| x.with_sub_index(0).with_sub_index(0), |m| m.set_input(0, h.0, h.1), luts);
            });
        }
    }
}

fn finalizer(c: &mut Case, luts: &LookUpTables) {
    let bits = walk_len(c) / 2;
    let v = walk_bytes(c, bits);
    let mut f = c.guarded("creating the finalizer", || PredictionFinalizer::new(luts));
    let mut x = LastBytesCache::new();
    for k in 0..bits {
        if k % 8 == 0 {
            x.start_new_byte();
        }
        let (sq, st) = any_pair(c, luts);
        let n = c.rng.usize(0, 21);
        c.guarded("refining", || { f.refine(sq, st, n, &x); });
        let bit = Bit::from(bit_of(&v, k));
        c.guarded("updating", || f.update(bit, n, &x));
        x.on_next_bit(bit);
        c.count("legal calls", 2);
    }
    let (sq, st) = any_pair(c, luts);
    if bits % 8 == 0 && c.rng.chance(0.3) {
        refused(c, "final refinement between bytes", || { f.refine(sq, st, 3, &x); });
        return;
    }
    if bits % 8 == 0 {
        x.start_new_byte();
    }
    if c.rng.bool() {
        refused(c, "updating the finalizer without refinement", || f.update(Bit::One, 2, &x));
    } else {
        c.guarded("refining", || { f.refine(sq, st, 2, &x); });
        refused(c, "final refinement twice", || { f.refine(sq, st, 2, &x); });
    }
}

fn chain(c: &mut Case, luts: &LookUpTables) {
    let bits = 8 + walk_len(c) / 2;
    let v = walk_bytes(c, bits);
    let order = c.rng.usize(0, 20);
    let window = bits / 8 + 2;
    let mut s = TreeHistorySource::new(window, order, luts);
    let mut m = c.guarded("creating the chain", || ContextsChainPredictionMixer::new(order, luts));
    let mut got = CollectedContextStates::new(order);
    let mut partial = 1u8;
    for k in 0..bits {
        if k % 8 == 0 {
            s.start_new_byte();
            partial = 1;
        }
        got.reset();
        s.gather_history_states(&mut got);
        c.guarded("predicting", || { m.predict(&got, partial); });
        let bit = Bit::from(bit_of(&v, k));
        let f = c.guarded("updating", || m.update(bit, &got));
        s.process_input_bit(bit, &f);
        partial = (partial << 1) | bit.to_u8();
        c.count("legal calls", 2);
    }
    if bits % 8 == 0 {
        s.start_new_byte();
        partial = 1;
    }
    got.reset();
    s.gather_history_states(&mut got);
    if got.items().is_empty() {
        return;
    }
    if c.rng.bool() {
        refused(c, "updating the chain without a prediction", || { m.update(Bit::One, &got); });
    } else {
        c.guarded("predicting", || { m.predict(&got, partial); });
        refused(c, "predicting twice with the chain", || { m.predict(&got, partial); });
    }
}

fn statistics(c: &mut Case, luts: &LookUpTables) {
    let bits = walk_len(c);
    let v = walk_bytes(c, bits);
    let mut s = PredictionStatistics::new(20, luts);
    let mut x = LastBytesCache::new();
    let got = CollectedContextStates::new(20);
    for k in 0..bits {
        if k % 8 == 0 {
            x.start_new_byte();
            c.guarded("starting a byte", || s.start_new_byte(&x));
        }
        let bit = Bit::from(bit_of(&v, k));
        let p = FinalProbability::new(1 + c.rng.below((1 << 23) - 1) as u32, 23);
        c.guarded("counting", || s.on_next_bit(bit, &got, p));
        x.on_next_bit(bit);
        c.count("legal calls", 2);
    }
    if bits % 8 == 0 {
        refused(c, "starting a byte in the statistics before it starts", || s.start_new_byte(&x));
    } else {
        refused(c, "starting a byte in the statistics inside a byte", || s.start_new_byte(&x));
    }
}

fn main() {
    vh::check("C23", "exploration",
        "case = random legal walk on a real component followed by one illegal call, which must be refused; every case is non-trivial; distinct by walk, state and illegal call",
        |r| {
            let luts = LookUpTables::new();
            let l = &luts;
            let n = r.n(6_000, 150_000);
            r.cases("history-source", n, |c| tree(c, l));
            let n = r.n(900, 12_000);
            r.cases("predictor", n, |c| predictor(c, l));
            let n = r.n(12_000, 300_000);
            r.cases("mixers", n, |c| mixers(c, l));
            let n = r.n(6_000, 100_000);
            r.cases("maps", n, |c| map(c, l));
            let n = r.n(6_000, 100_000);
            r.cases("caches", n, |c| cache(c));
            let n = r.n(3_000, 60_000);
            r.cases("estimator-banks", n, |c| estimator_bank(c, l));
            let n = r.n(3_000, 60_000);
            r.cases("mixer-banks", n, |c| mixer_bank(c, l));
            let n = r.n(600, 6_000);
            r.cases("finalizer", n, |c| finalizer(c, l));
            let n = r.n(600, 6_000);
            r.cases("chain", n, |c| chain(c, l));
            let n = r.n(3_000, 60_000);
            r.cases("statistics", n, |c| statistics(c, l));
            for k in [
                "gathering between bytes", "processing a bit between bytes", "gathering into a collection already filled",
                "processing with too few cost records", "starting a byte inside a byte",
                "predicting between bytes", "updating the predictor between bytes", "updating the predictor without a prediction",
                "starting a byte inside a byte (predictor)", "predicting twice", "starting a byte while a prediction is pending",
                "setting an input twice", "mixing with a missing input", "training with a missing input",
                "reading a missing input (linear)", "reading a missing input (stretched)", "training at a rate index above the limit",
                "training at a rate index already passed", "setting an input that does not exist",
                "training a map before refining", "refining twice", "training a map twice", "training a context that does not exist",
                "refining in a context that does not exist", "refining with another resolution's tables",
                "adding a bit between bytes", "starting a byte inside a byte (cache)", "hashing one byte between bytes",
                "hashing two bytes between bytes", "hashing three bytes between bytes",
                "updating an estimator bank without a prediction", "predicting twice with an estimator bank",
                "updating a mixer bank without a prediction", "asking for the current mixer without a prediction",
                "addressing a mixer while a prediction is pending", "predicting twice with a mixer bank",
                "final refinement between bytes", "updating the finalizer without refinement", "final refinement twice",
                "updating the chain without a prediction", "predicting twice with the chain",
                "starting a byte in the statistics inside a byte",
            ] {
                r.require(k, 20);
            }
        });
}
