//! Work whose results are digested here and on another platform.
#[path = "mix.rs"]
#[allow(dead_code)]
pub mod mixed;
use demixer::bit::Bit;
use demixer::coding::encoder::Encoder;
use demixer::coding::FinalProbability;
use demixer::estimators::cost::CostTracker;
use demixer::estimators::decelerating::DeceleratingEstimator;
use demixer::estimators::fixed_speed::FixedSpeedEstimator;
use demixer::fixed_point::types::*;
use demixer::fixed_point::*;
use demixer::history::state::bits_runs::BitsRunsTracker;
use demixer::history::state::recent_bits::RecentBitsHistory;
use demixer::history::tree::node::CostTrackers;
use demixer::history::tree::TreeHistorySource;
use demixer::history::window::InputWindow;
use demixer::history::{CollectedContextStates, HistorySource};
use demixer::lut::cost::CostTrackersLut;
use demixer::lut::estimator::{DeceleratingEstimatorCache, DeceleratingEstimatorRates};
use demixer::lut::log2::Log2Lut;
use demixer::lut::LookUpTables;
use demixer::mixing::mixer::{FixedSizeMixer, Mixer, Mixer3, MixerInitializationMode};
use demixer::predictor::kits::{EstimatorsWithIndexer, MixersWithIndexer};
use demixer::predictor::Predictor;
use demixer::util::hash::Fnv1A;
use demixer::util::indexer::*;
use demixer::util::quantizers::OccurrenceCountQuantizer;
use mixed::{make_free, whole, Spec, KINDS};
use vh::{data, hash_bytes, mix, Rng, H0};

pub const WORKS: u64 = KINDS + 6;
pub fn name(kind: u64) -> &'static str {
    if kind < KINDS { return mixed::NAMES[kind as usize]; }
    ["compression of an input", "all lookup tables", "fixed-point numbers", "states of contexts", "banks", "tree over a large window"][(kind - KINDS) as usize]
}

/// the kinds that use no lookup tables, or only those that are cheap to make
pub const FREE: [u64; 6] = [7, 8, 9, 10, KINDS + 2, KINDS + 3];
pub fn free(kind: u64, seed: u64, steps: u64) -> u64 {
    let mut r = Rng::new(seed);
    if kind == KINDS + 2 { return numbers(&mut r, steps); }
    if kind == KINDS + 3 { return small(&mut r, &DeceleratingEstimatorRates::make_default(), steps); }
    let s = Spec { kind, seed, steps: steps as usize };
    let mut x = make_free(s).unwrap();
    let mut h = H0;
    for _ in 0..s.steps { h = mix(h, x.step()); }
    mix(h, x.end())
}

pub fn work(l: &LookUpTables, kind: u64, seed: u64, steps: u64) -> u64 {
    let mut r = Rng::new(seed);
    match kind.wrapping_sub(KINDS) {
        0 => compress(&mut r, l, steps),
        1 => mix(all_tables(l), tables(&DeceleratingEstimatorRates::make_default())),
        2 => numbers(&mut r, steps),
        3 => small(&mut r, &DeceleratingEstimatorRates::make_default(), steps),
        4 => banks(&mut r, l, steps),
        5 => large(&mut r, l, steps),
        _ => whole(Spec { kind, seed, steps: steps as usize }, l),
    }
}

fn text(r: &mut Rng, n: usize) -> Vec<u8> {
    let mut v = if r.bool() { data::hostile(r, n).1 } else { data::any(n, r).1 };
    v.resize(n, 7);
    v
}

fn compress(r: &mut Rng, l: &LookUpTables, steps: u64) -> u64 {
    let n = steps as usize / 8 + 1;
    let v = text(r, n);
    let mut p = match r.below(4) {
        0 => Predictor::new(l),
        1 => Predictor::with_window((n / 3).max(1), 20, l),
        _ => Predictor::with_window(1 + r.log_uniform(n as u64) as usize, r.usize(0, 20), l),
    };
    let mut h = H0;
    let mut out = vec![];
    {
        let mut e = Encoder::new(&mut out);
        for b in v {
            p.start_new_byte();
            for left in (0..8).rev() {
                let q = p.predict();
                h = mix(h, q.raw() as u64);
                let bit = Bit::from(b >> left & 1 == 1);
                e.encode_bit(q, bit);
                p.update(bit);
            }
        }
    }
    hash_bytes(h, &out)
}

/// a tree whose window takes more than 16 bits to address
fn large(r: &mut Rng, l: &LookUpTables, steps: u64) -> u64 {
    let n = steps as usize / 8 + 1;
    let (window, order) = ((n * 2 / 3).max(1), r.usize(1, 24));
    let v = text(r, n);
    let mut t = TreeHistorySource::new(window, order, l);
    let mut got = CollectedContextStates::new(order);
    let mut h = H0;
    for (k, b) in v.into_iter().enumerate() {
        t.start_new_byte();
        for left in (0..8).rev() {
            got.reset();
            t.gather_history_states(&mut got);
            for x in got.items() { h = mix(h, (x.last_occurrence_distance() as u64) << 16 | x.occurrence_count() as u64); }
            if k % 97 == 0 { h = hash_bytes(h, format!("{:?}", got.items()).as_bytes()); }
            let nodes = got.items().iter().filter(|x| x.is_for_node()).count();
            let feed: Vec<CostTrackers> = (0..nodes).map(|_| CostTrackers::new(CostTracker::new(r.u64() as u16), CostTracker::new(r.u64() as u16))).collect();
            t.process_input_bit(Bit::from(b >> left & 1 == 1), &feed);
        }
    }
    h
}

pub fn small(r: &mut Rng, rates: &DeceleratingEstimatorRates, steps: u64) -> u64 {
    let mut h = H0;
    let mut e = DeceleratingEstimator::new();
    let mut f = FixedSpeedEstimator::new(r.u64() as u16);
    let mut recent: Option<RecentBitsHistory> = None;
    let mut runs: Option<BitsRunsTracker> = None;
    let mut k = Fnv1A::new();
    for _ in 0..steps {
        let b = Bit::from(r.bool());
        e.update(b, rates);
        f.update(b);
        h = mix(h, e.prediction().raw() as u64 ^ f.prediction().raw() as u64);
        let q = match recent { None => RecentBitsHistory::for_new_node(b, 1 + r.below(20) as u16), Some(x) => x.updated(b) };
        h = mix(h, (q.last_7_bits() as u64) << 8 | q.histogram() as u64);
        recent = Some(q);
        let t = match runs.take() { None => BitsRunsTracker::for_new_node(b, 1 + r.below(900) as u16), Some(t) => t.updated(b) };
        h = mix(h, t.last_bit_run_length() as u64 + ((t.opposite_bit_run_length() as u64) << 16));
        runs = Some(t);
        h = mix(h, OccurrenceCountQuantizer::quantize(r.u64() as u16) as u64);
        k.mix_byte(r.u8());
    }
    h = mix(h, k.into_u64());
    let cap = r.usize(1, 40);
    let shift = r.usize(0, cap - 1);
    let mut w = InputWindow::new(cap, shift);
    for _ in 0..3 * cap {
        if w.size() == cap { w.advance_start(); }
        w.advance_cursor();
        w.set_byte_at_cursor(r.u8() & 1);
        if w.size() > 2 {
            let (a, b) = (w.index_subtract(w.cursor(), 1), w.index_subtract(w.cursor(), 2));
            h = hash_bytes(h, format!("{:?} {} {}", w.compare_for_equal_prefix(b, a, 0, 1), w.index_diff(a, b), a.raw()).as_bytes());
        }
    }
    h
}

/// the tables that are cheap to make, at every index
pub fn tables(rates: &DeceleratingEstimatorRates) -> u64 {
    let mut h = H0;
    let log2 = Log2Lut::new();
    for i in 1 << Log2Lut::INDEX_BITS..2 << Log2Lut::INDEX_BITS { h = mix(h, log2.log2_restricted(i) as u64); }
    let cache = DeceleratingEstimatorCache::new(rates);
    let costs = CostTrackersLut::new(&log2, rates);
    for i in (0..1100).chain([u16::MAX]) {
        h = mix(h, costs.for_new_node(i).raw() as u64);
        if i > 0 && i <= DeceleratingEstimator::MAX_COUNT { for b in [Bit::Zero, Bit::One] { h = mix(h, cache.for_new_node(b, i).prediction().raw() as u64); } }
    }
    h
}

fn all_tables(l: &LookUpTables) -> u64 {
    let mut h = H0;
    for i in 2048u32..4096 { h = mix(h, l.log2_lut().log2_restricted(i) as u64); }
    for n in 0..=1000u16 {
        h = mix(h, l.d_estimator_rates()[n].raw() as u64);
        h = mix(h, l.cost_trackers_lut().for_new_node(n).raw() as u64);
        let (a, b) = l.direct_predictions().for_0_bit_run(n);
        h = mix(h, (a.raw() as u64) << 32 | b.raw() as u32 as u64);
        if n > 0 { h = mix(h, l.d_estimator_cache().for_new_node(Bit::Zero, n).prediction().raw() as u64); }
    }
    for k in (-(12 << 21)..=12 << 21).step_by(997) { h = mix(h, l.squash_lut().squash(StretchedProbD::new(k, 21)).raw() as u64); }
    let mut x = 1u32;
    while x < 1 << 31 { h = mix(h, l.stretch_lut().stretch(FractOnlyU32::new(x, 31)).raw() as u32 as u64); x += 1 + x / 500 + (x & 1) * 40_000; }
    for bits in 0..3 {
        let t = l.apm_lut(bits);
        for s in t.squashed_interval_stops() { h = mix(h, s.raw() as u64); }
        for s in t.shifts_by_interval() { h = mix(h, *s as u64); }
        for s in t.extra_factor_by_interval() { h = mix(h, s.raw() as u64); }
    }
    h
}

fn numbers(r: &mut Rng, steps: u64) -> u64 {
    let mut h = H0;
    let log2 = Log2Lut::new();
    for _ in 0..steps {
        let a = FractOnlyI32::new(1 + r.below((1 << 31) - 1) as i32, 31);
        let b = MixerWeight::new(r.range(-(7 << 21), 7 << 21) as i32, 21);
        let s = StretchedProbD::new(r.range(-(12 << 21), 12 << 21) as i32, 21);
        let u = FractOnlyU32::new(1 + r.below((1 << 31) - 1) as u32, 31);
        let p: FinalProbability = u.to_fix_u32();
        let wide: StretchedProbQ = fix_i32::mul_wide(&b, &s);
        let narrow: StretchedProbD = fix_i32::mul(&s, &a);
        let scaled: FractOnlyU32 = fix_u32::mul(&u, &u);
        h = mix(h, wide.raw() as u64);
        h = mix(h, wide.add(&wide).clamped().to_fix_i32::<StretchedProbD>().raw() as u32 as u64);
        h = mix(h, (narrow.raw() as u32 as u64) << 32 | scaled.raw() as u64);
        h = mix(h, ((a.flip().raw() ^ b.neg().raw()) as u32 as u64) << 32 | u.flip().raw() as u64);
        h = mix(h, b.add(&b.div(3)).raw() as u32 as u64 ^ (s.trunc() as u32 as u64) << 32);
        h = mix(h, u.log2(&log2).raw() as u32 as u64);
        let v: FractOnlyU64 = u.to_fix_u64();
        h = mix(h, v.raw() ^ v.flip().raw().rotate_left(7) ^ FractOnlyU64::new(v.raw() | 1, 63).log2(&log2).raw() as u64);
        h = mix(h, p.estimate_cost(Bit::from(r.bool()), &log2).raw() as u64);
        h = mix(h, s.as_f64().to_bits() ^ u.as_f64().to_bits().rotate_left(9));
        let d = Log2Q::new_unchecked(r.u64() as i64 >> 8);
        h = mix(h, d.add(&Log2Q::new_unchecked(r.u64() as i64 >> 9)).neg().div(1 + r.below(1_000_000) as i64).raw() as u64);
        h = mix(h, d.as_f64().to_bits());
    }
    h
}

fn banks(r: &mut Rng, l: &LookUpTables, steps: u64) -> u64 {
    let d = [r.usize(1, 9), r.usize(1, 9), r.usize(1, 30)];
    let mut e = EstimatorsWithIndexer::new(Indexer3::new(d.to_vec()));
    let mut m = MixersWithIndexer::new(|| Mixer3::new(10, MixerInitializationMode::EqualSummingToOne), Indexer3::new(d.to_vec()));
    let mut h = H0;
    for _ in 0..steps {
        let at = [r.usize(0, d[0] - 1), r.usize(0, d[1] - 1), r.usize(0, d[2] - 1)];
        let (sq, st) = e.predict(l, |i| i.with_sub_index(at[0]).with_sub_index(at[1]).with_sub_index(at[2]));
        let (a, b) = m.predict(|i| i.with_sub_index(at[0]).with_sub_index(at[1]).with_sub_index(at[2]),
            |x| for k in 0..3 { x.set_input(k, sq, st) }, l);
        h = mix(h, (a.raw() as u64) << 32 | b.raw() as u32 as u64);
        let bit = Bit::from(r.chance(0.7));
        e.update(bit, l);
        m.update(bit, 500, l);
    }
    h
}
