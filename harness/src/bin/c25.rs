//! C25: the predictor is exactly the composition of its parts: contexts from
//! shortest to longest, then refinement; what took part is trained once.
//! The reference keeps every cell under an explicit key (no index arithmetic)
//! and is driven in lock step with the real predictor.
#[path = "../dx/pred.rs"]
mod pred;
use demixer::bit::Bit;
use demixer::estimators::decelerating::DeceleratingEstimator;
use demixer::fixed_point::types::{FractOnlyU32, StretchedProbD};
use demixer::fixed_point::{FixU32, FixedPoint};
use demixer::history::state::bits_runs::BitsRunsTracker;
use demixer::history::tree::node::CostTrackers;
use demixer::history::tree::TreeHistorySource;
use demixer::history::{CollectedContextStates, ContextState, HistorySource};
use demixer::lut::LookUpTables;
use demixer::mixing::apm::AdaptiveProbabilityMap;
use demixer::mixing::mixer::{FixedSizeMixer, Mixer, Mixer3, Mixer4, MixerInitializationMode};
use demixer::util::last_bytes::LastBytesCache;
use demixer::util::quantizers::OccurrenceCountQuantizer;
use pred::*;
use std::collections::hash_map::Entry;
use std::collections::HashMap;
use vh::{data, ensure, Case};

type Prob = (FractOnlyU32, StretchedProbD);
type EdgeMix = (usize, bool, usize, usize, bool);
type NodeMix = (usize, bool, usize, usize, usize, usize);

#[derive(Clone, Copy, PartialEq)]
enum Used {
    Edge { counts: (usize, usize, u8), mix: EdgeMix, out: FractOnlyU32 },
    Node { runs: (usize, usize, bool), mix: NodeMix, out: FractOnlyU32 },
}

struct Reference<'a> {
    luts: &'a LookUpTables,
    source: TreeHistorySource<'a>,
    list: CollectedContextStates,
    cache: LastBytesCache,
    edge_counts: HashMap<(usize, usize, u8), DeceleratingEstimator>,
    node_runs: HashMap<(usize, usize, bool), DeceleratingEstimator>,
    edge_mixers: HashMap<EdgeMix, Mixer4>,
    node_mixers: HashMap<NodeMix, Mixer3>,
    maps: [AdaptiveProbabilityMap; 4],
    used: Vec<Used>,
}

fn far(d: usize) -> usize {
    [100, 1_000, 10_000].iter().filter(|&&x| d >= x).count()
}

fn rivalry(t: &CostTrackers) -> usize {
    // how the two cost records of a branching context compare
    let (s, n) = (t.stationary().raw() as f64, t.non_stationary().raw() as f64);
    let (half, eighth) = (|x: f64| x + (x / 2.0).floor(), |x: f64| x + (x / 8.0).floor());
    if half(s) < n { 0 } else if eighth(s) < n { 1 } else if s < n { 2 } else if s < eighth(n) { 3 } else if s < half(n) { 4 } else { 5 }
}

fn mean4(parts: &[(FractOnlyU32, u64)]) -> FractOnlyU32 {
    let sum: u64 = parts.iter().map(|(p, w)| p.raw() as u64 * w).sum();
    FractOnlyU32::new(((sum + 2) / 4) as u32, 31)
}

impl<'a> Reference<'a> {
    fn new(s: Setup, luts: &'a LookUpTables) -> Self {
        let (window, order) = match s { Setup::Default => (10_000_000, 20), Setup::Window(w, o) => (w, o) };
        let map = |n| AdaptiveProbabilityMap::new(n, 0, luts.squash_lut());
        Reference {
            luts, source: TreeHistorySource::new(window, order, luts), list: CollectedContextStates::new(order),
            cache: LastBytesCache::new(), edge_counts: HashMap::new(), node_runs: HashMap::new(),
            edge_mixers: HashMap::new(), node_mixers: HashMap::new(),
            maps: [map(256), map(65536), map(65536), map(65536)], used: vec![],
        }
    }

    fn start_new_byte(&mut self) {
        self.cache.start_new_byte();
        self.source.start_new_byte();
    }

    fn cells(&self) -> [usize; 4] {
        [self.cache.unfinished_byte().raw() as usize, self.cache.hash01_16() as usize, self.cache.hash02_16() as usize, self.cache.hash03_16() as usize]
    }

    fn predict(&mut self, c: &mut Case) -> u32 {
        let luts = self.luts;
        self.list.reset();
        self.source.gather_history_states(&mut self.list);
        self.used.clear();
        let stretched = |p: FractOnlyU32| (p, luts.stretch_lut().stretch(p));
        let mut below: Prob = (FractOnlyU32::HALF, StretchedProbD::ZERO);
        let count = self.list.items().len();
        for (order, ctx) in self.list.items().iter().enumerate() {
            let longest = order + 1 == count;
            let relation = match order {
                0 => 0,
                _ => {
                    let shorter = &self.list.items()[order - 1];
                    if shorter.is_for_node() != ctx.is_for_node() { 2 }
                    else { (shorter.probability_estimator(luts) == ctx.probability_estimator(luts)) as usize }
                }
            };
            c.count(["relation: different or first", "relation: equal estimates", "relation: branching to deterministic"][relation], 1);
            match ctx {
                &ContextState::ForEdge { last_occurrence_distance, repeated_bit, occurrence_count } => {
                    let q = OccurrenceCountQuantizer::quantize(occurrence_count);
                    let counts = (order, q, self.cache.unfinished_byte().raw());
                    let a = stretched(self.edge_counts.entry(counts).or_insert_with(DeceleratingEstimator::new).prediction());
                    let direct = luts.direct_predictions().for_0_bit_run(occurrence_count);
                    let two = StretchedProbD::new(2 << 21, 21);
                    let fixed = (luts.squash_lut().squash(two), two);
                    let mix = (order, longest, relation, far(last_occurrence_distance), repeated_bit.is_1());
                    c.count(["deterministic, distance below 100", "deterministic, distance below 1000", "deterministic, distance below 10000", "deterministic, farther"][mix.3], 1);
                    let mixer = match self.edge_mixers.entry(mix) {
                        Entry::Occupied(e) => e.into_mut(),
                        Entry::Vacant(e) => { c.count("mixers of deterministic contexts", 1); e.insert(Mixer4::new(10, MixerInitializationMode::DominantFirst)) }
                    };
                    for (i, p) in [below, direct, fixed, a].iter().enumerate() { mixer.set_input(i, p.0, p.1); }
                    below = mixer.mix_all(luts.squash_lut());
                    self.used.push(Used::Edge { counts, mix, out: below.0 });
                }
                &ContextState::ForNode { last_occurrence_distance, probability_estimator, bits_runs, ref cost_trackers, .. } => {
                    let q = OccurrenceCountQuantizer::quantize(bits_runs.last_bit_run_length());
                    let runs = (order, q, bits_runs.last_bit().is_1());
                    let a = stretched(probability_estimator.prediction());
                    let b = stretched(self.node_runs.entry(runs).or_insert_with(DeceleratingEstimator::new).prediction());
                    let mix = (order, longest, relation, rivalry(cost_trackers), far(last_occurrence_distance),
                               OccurrenceCountQuantizer::quantize(bits_runs.opposite_bit_run_length()));
                    c.count(["branching, distance below 100", "branching, distance below 1000", "branching, distance below 10000", "branching, farther"][mix.4], 1);
                    c.count(["records: run estimate far worse", "records: run estimate worse", "records: run estimate slightly worse", "records: run estimate as good or slightly better",
                             "records: run estimate better", "records: run estimate far better"][mix.3], 1);
                    c.seen("quantized opposite runs", mix.5 as u64);
                    let mixer = match self.node_mixers.entry(mix) {
                        Entry::Occupied(e) => e.into_mut(),
                        Entry::Vacant(e) => { c.count("mixers of branching contexts", 1); e.insert(Mixer3::new(10, MixerInitializationMode::DominantFirst)) }
                    };
                    for (i, p) in [below, a, b].iter().enumerate() { mixer.set_input(i, p.0, p.1); }
                    below = mixer.mix_all(luts.squash_lut());
                    self.used.push(Used::Node { runs, mix, out: below.0 });
                }
            }
        }
        c.count("contexts combined", count as u64);
        c.count("bits without a context", (count == 0) as u64);
        let cells = self.cells();
        let lut = luts.apm_lut(0);
        let first = self.maps[0].refine(cells[0], below.0, below.1, lut);
        let half = stretched(mean4(&[(below.0, 3), (first, 1)]));
        let mut p = [FractOnlyU32::HALF; 4];
        for i in 1..4 { p[i] = self.maps[i].refine(cells[i], half.0, half.1, lut); }
        let out: FractOnlyU32 = mean4(&[(p[1], 1), (p[2], 2), (p[3], 1)]);
        let last: demixer::coding::FinalProbability = out.to_fix_u32();
        last.raw()
    }

    fn update(&mut self, bit: Bit) {
        let luts = self.luts;
        let rates = luts.d_estimator_rates();
        let mut records = vec![];
        for (used, ctx) in self.used.iter().zip(self.list.items()) {
            match *used {
                Used::Edge { counts, mix, out } => {
                    self.edge_counts.get_mut(&counts).unwrap().update(bit, rates);
                    self.edge_mixers.get_mut(&mix).unwrap().update_and_reset(bit, out, 300, rates);
                }
                Used::Node { runs, mix, out } => {
                    if let ContextState::ForNode { cost_trackers, .. } = ctx {
                        let mixer = &self.node_mixers[&mix];
                        let s = cost_trackers.stationary().updated_on_bit(mixer.prediction_sq(1), bit, luts);
                        let n = cost_trackers.non_stationary().updated_on_bit(mixer.prediction_sq(2), bit, luts);
                        records.push(CostTrackers::new(s, n));
                    }
                    self.node_runs.get_mut(&runs).unwrap().update(bit, rates);
                    self.node_mixers.get_mut(&mix).unwrap().update_and_reset(bit, out, 100, rates);
                }
            }
        }
        self.source.process_input_bit(bit, &records);
        let cells = self.cells();
        for i in 0..4 { self.maps[i].update_predictions(cells[i], bit, 5, true); }
        self.cache.on_next_bit(bit);
    }
}

fn one(c: &mut Case, v: &[u8], s: Setup, luts: &LookUpTables) {
    let mut r = Reference::new(s, luts);
    let mut p = c.guarded("creating the predictor", || make(s, luts));
    for (pos, &b) in v.iter().enumerate() {
        c.guarded("starting a byte", || p.start_new_byte());
        r.start_new_byte();
        for left in (0..8).rev() {
            let got = c.guarded("predicting", || p.predict()).raw();
            let want = r.predict(c);
            ensure!(c, got == want, "byte {} bit {}: probability {}/2^23, its parts give {}/2^23 ({} contexts)", pos, left, got, want, r.list.items().len());
            let bit = Bit::from((b >> left) & 1 == 1);
            c.guarded("updating", || p.update(bit));
            r.update(bit);
        }
    }
    c.count("predictions compared", v.len() as u64 * 8);
    c.sig_bytes(v);
    c.sig(vh::hash_bytes(1, format!("{:?}", s).as_bytes()));
    if v.len() >= 4 { c.nontrivial(); }
}

fn main() {
    vh::check("C25", "exploration",
        "case = input and window coded by the real predictor, every probability compared with a separate composition of estimators, mixers and maps kept under explicit keys; non-trivial when at least 4 bytes; distinct by input and window",
        |r| {
            let luts = LookUpTables::new();
            let l = &luts;
            let limit = BitsRunsTracker::MAX_RUN_LENGTH;
            let n = r.n(500, 15_000);
            r.cases("inputs", n, |c| {
                let len = c.rng.log_uniform(if c.index % 16 == 0 { 30_000 } else { 3_000 }) as usize;
                let (k, v) = if c.rng.chance(0.3) { data::hostile(&mut c.rng, len) } else { data::any(len, &mut c.rng) };
                let s = if c.rng.chance(0.3) { Setup::Window(1 + c.rng.log_uniform(2 * len as u64 + 2) as usize, c.rng.usize(0, 20)) } else { Setup::Default };
                c.desc(format!("{} {} bytes, {:?}: {}", k, v.len(), s, data::hex(&v)));
                one(c, &v, s, l);
            });
            let n = r.n(24, 300);
            r.cases("far", n, |c| {
                // repeats in all distance classes, some betrayed
                let len = c.rng.usize(12_000, 45_000);
                let mut v = data::by_kind(["random", "tiny-alphabet", "text", "blocks"][c.index as usize % 4], len, &mut c.rng);
                for _ in 0..60 {
                    let k = c.rng.log_uniform(80) as usize;
                    let to = c.rng.usize(k, v.len() - k);
                    let from = c.rng.usize(0, to - k);
                    let part = v[from..from + k].to_vec();
                    v[to..to + k].copy_from_slice(&part);
                }
                c.desc(format!("far repeats in {} bytes", v.len()));
                one(c, &v, Setup::Default, l);
            });
            let n = r.n(24, 300);
            r.cases("long-runs", n, |c| {
                // run lengths and counts up to their limits, then betrayal
                let mut v = vec![];
                let (a, b) = (c.rng.u8(), c.rng.u8());
                while v.len() < 9_000 {
                    let k = c.rng.log_uniform(2 * limit as u64) as usize;
                    v.extend(std::iter::repeat(if c.rng.bool() { a } else { b }).take(k));
                    if c.rng.chance(0.3) { v.push(c.rng.u8()); }
                }
                c.desc(format!("long runs of {:02x} and {:02x}, {} bytes", a, b, v.len()));
                one(c, &v, Setup::Default, l);
            });
            for k in ["relation: different or first", "relation: equal estimates", "relation: branching to deterministic", "bits without a context",
                      "deterministic, distance below 100", "deterministic, distance below 1000", "deterministic, distance below 10000", "deterministic, farther",
                      "branching, distance below 100", "branching, distance below 1000", "branching, distance below 10000", "branching, farther",
                      "records: run estimate far worse", "records: run estimate worse", "records: run estimate slightly worse",
                      "records: run estimate as good or slightly better", "records: run estimate better", "records: run estimate far better"] {
                r.require(k, 500);
            }
            r.assume("the parts (estimators, mixers, maps, tables, suffix tree, byte cache) are the crate's own and are decided by other properties; what is decided here is their selection, order and training");
            r.require("predictions compared", 2_000_000);
        });
}
