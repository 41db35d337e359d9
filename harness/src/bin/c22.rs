//! C22: every entry of every precomputed table equals what its rule gives
//! when evaluated directly.
use demixer::bit::Bit;
use demixer::coding::FinalProbability;
use demixer::estimators::cost::CostTracker;
use demixer::estimators::decelerating::DeceleratingEstimator as Est;
use demixer::fixed_point::types::{FractOnlyU32, Log2D, StretchedProbD};
use demixer::fixed_point::{FixU32, FixedPoint};
use demixer::lut::estimator::DeceleratingEstimatorRates;
use demixer::lut::log2::Log2Lut;
use demixer::lut::LookUpTables;
use vh::{ensure, rejects};

const ONE: u64 = 1 << 31;

/// nearest integer to a / 2^k, halves away from zero
fn round_shift(a: i128, k: u32) -> i128 {
    let h = 1i128 << (k - 1);
    if a >= 0 { (a + h) >> k } else { -((-a + h) >> k) }
}

/// the estimator's rule in exact integers: (22-bit estimate, count)
fn step(state: (i128, u16), bit_is_1: bool, rates: &[u64]) -> (i128, u16) {
    let (p, n) = state;
    let p31 = p << 9;
    let target = if bit_is_1 { 0 } else { ONE as i128 };
    let exact = (p31 << 31) + (target - p31) * rates[n as usize] as i128;
    // rounded relative to one half
    let half = 1i128 << 61;
    let q = round_shift(exact - half, 40) + (1 << 21);
    (q.clamp(1, (1 << 22) - 1), (n + 1).min(1000))
}

fn state(e: &Est) -> (i128, u16) {
    ((e.prediction().raw() >> 9) as i128, e.usage_count())
}

fn main() {
    vh::check("C22", "exploration",
        "case = one table; every entry is read and compared with a direct evaluation of its rule; distinct by entry",
        |r| {
            let luts = LookUpTables::new();
            let l = &luts;
            let rates: Vec<u64> = (0..1024u64).map(|i| ONE / (i + 2)).collect();
            let rt = &rates;

            r.once("rates", |c| {
                c.desc("adaptation rates, all 1024 counts");
                for i in 0..1024u16 {
                    let got = c.guarded("rates", || l.d_estimator_rates()[i].raw());
                    ensure!(c, got as u64 == rt[i as usize], "rate at count {} is {}, 1/(count+2) is {}", i, got, rt[i as usize]);
                    c.count("entries compared", 1);
                }
                for (f, a) in [(1u32, 2u32), (1, 1), (2, 3), (3, 1), (1, 100), (5, 17)] {
                    let t = c.guarded("rates", || DeceleratingEstimatorRates::make(f, a));
                    for i in 0..1024u16 {
                        let want = ONE / (i as u64 * f as u64 + a as u64);
                        ensure!(c, t[i].raw() as u64 == want, "rate {}/{} at {} is {} instead of {}", f, a, i, t[i].raw(), want);
                        c.count("entries compared", 1);
                    }
                }
                c.nontrivial();
            });

            r.once("new-contexts", |c| {
                c.desc("estimates of new branching contexts, runs 0..=1000, both bits");
                let mut zeros = Est::new();
                let mut model = (1i128 << 21, 0u16);
                for n in 0..=1000u16 {
                    for bit in [Bit::One, Bit::Zero] {
                        let got = c.guarded("for_new_node", || l.d_estimator_cache().for_new_node(bit, n));
                        let mut m = step(model, true, rt);
                        if bit.is_0() {
                            m.0 = (1 << 22) - m.0;
                        }
                        ensure!(c, state(&got) == m,
                                "estimate after {} repetitions broken by {} is {:?}, direct training gives {:?}", n, bit, state(&got), m);
                        c.count("entries compared", 1);
                    }
                    let mut one = zeros;
                    one.update(Bit::One, l.d_estimator_rates());
                    let got = l.d_estimator_cache().for_new_node(Bit::One, n);
                    ensure!(c, got == one, "estimate for run {} differs from training: {:?} and {:?}", n, got, one);
                    zeros.update(Bit::Zero, l.d_estimator_rates());
                    model = step(model, false, rt);
                    ensure!(c, state(&zeros) == model, "training with {} zeros gives {:?}, exact arithmetic {:?}", n + 1, state(&zeros), model);
                }
                for n in [1001u16, 1023, 1024, 65535] {
                    ensure!(c, rejects(|| l.d_estimator_cache().for_new_node(Bit::One, n)), "a run of {} repetitions was accepted", n);
                    ensure!(c, rejects(|| l.direct_predictions().for_0_bit_run(n)), "a run of {} repetitions was accepted", n);
                }
                c.nontrivial();
            });

            r.once("deterministic-contexts", |c| {
                c.desc("predictions of deterministic contexts, runs 0..=1000");
                let mut e = Est::make(FractOnlyU32::HALF, 1);
                let mut model = (1i128 << 21, 1u16);
                for n in 0..=1000u16 {
                    let got = c.guarded("for_0_bit_run", || l.direct_predictions().for_0_bit_run(n));
                    ensure!(c, got.0.raw() as i128 == model.0 << 9, "prediction after {} repetitions is {}, direct training gives {}", n, got.0.raw(), model.0 << 9);
                    let st = l.stretch_lut().stretch(got.0);
                    ensure!(c, got.1 == st, "stretched prediction after {} repetitions is {:?}, must be {:?}", n, got.1, st);
                    e.update(Bit::Zero, l.d_estimator_rates());
                    model = step(model, false, rt);
                    ensure!(c, state(&e) == model, "training with {} zeros gives {:?}, exact arithmetic {:?}", n + 1, state(&e), model);
                    c.count("entries compared", 1);
                }
                c.nontrivial();
            });

            r.once("cost-records", |c| {
                c.desc("cost records of new branching contexts, runs 0..=1000");
                let cost = |p: (i128, u16), bit: bool| -> Log2D {
                    // 22-bit estimate to the coder's 23 bits
                    let f = FinalProbability::new((p.0 as u32) << 1, 23);
                    f.estimate_cost(Bit::from(bit), l.log2_lut())
                };
                let mut model = (1i128 << 21, 0u16);
                let mut tracker = CostTracker::INITIAL;
                let one_bit = 1i128 << 11;
                let mut exact = one_bit << 4;
                for n in 0..=1000u16 {
                    let got = c.guarded("for_new_node", || l.cost_trackers_lut().for_new_node(n));
                    let want = tracker.updated(cost(model, true));
                    ensure!(c, got == want, "cost record after {} repetitions is {:?}, direct computation gives {:?}", n, got, want);
                    let e = (exact - round_shift(exact, 4) + cost(model, true).raw() as i128).min(65535);
                    ensure!(c, got.raw() as i128 == e, "cost record after {} repetitions is {}, exact arithmetic gives {}", n, got.raw(), e);
                    tracker = tracker.updated(cost(model, false));
                    exact = (exact - round_shift(exact, 4) + cost(model, false).raw() as i128).min(65535);
                    model = step(model, false, rt);
                    c.count("entries compared", 1);
                }
                for n in 1001..=u16::MAX {
                    let _ = c.guarded("for_new_node with a long run", || l.cost_trackers_lut().for_new_node(n));
                }
                c.nontrivial();
            });

            r.once("log2", |c| {
                c.desc("all 2048 entries of the binary logarithm table");
                let t = Log2Lut::new();
                for i in 2048u32..4096 {
                    let want = (2048.0 * (i as f64 / 2048.0).log2()).round() as u32;
                    for t in [&t, l.log2_lut()] {
                        let got = c.guarded("log2_restricted", || t.log2_restricted(i));
                        ensure!(c, got == want, "log2({}/2048)*2048 is {} in the table, {} directly", i, got, want);
                        c.count("entries compared", 1);
                    }
                }
                c.nontrivial();
            });

            r.cases("map-intervals", 3, |c| {
                let bits = c.index as u8;
                c.desc(format!("interval tables of probability maps, {} index bits", bits));
                let t = c.guarded("apm_lut", || l.apm_lut(bits));
                ensure!(c, t.stretched_fract_index_bits() == bits, "the table for {} bits claims {}", bits, t.stretched_fract_index_bits());
                let n = StretchedProbD::interval_stops_count(bits) as usize;
                ensure!(c, n == (2 * 12 << bits) + 1, "{} interval stops for {} bits", n, bits);
                let stops = t.squashed_interval_stops();
                ensure!(c, stops.len() == n, "{} stops instead of {}", stops.len(), n);
                for i in 0..n {
                    let x = StretchedProbD::new((i as i32 - n as i32 / 2) << (21 - bits), 21);
                    let want = l.squash_lut().squash(x);
                    ensure!(c, stops[i] == want, "interval stop {} is {}, the logistic function of it is {}", i, stops[i].raw(), want.raw());
                    c.count("entries compared", 1);
                }
                ensure!(c, t.shifts_by_interval().len() == n - 1 && t.extra_factor_by_interval().len() == n - 1, "wrong number of intervals");
                for i in 0..n - 1 {
                    // together: multiplication by the reciprocal of the length
                    let len = (stops[i + 1].raw() - stops[i].raw()) as u64;
                    let shift = t.shifts_by_interval()[i];
                    let f = t.extra_factor_by_interval()[i].raw() as u64;
                    let shifted = len << shift;
                    ensure!(c, shifted >> 30 == 1, "interval {}: length {} shifted by {} is not normalized", i, len, shift);
                    let full = shifted + ((shifted as u128 * f as u128 + (1 << 30)) >> 31) as u64;
                    ensure!(c, full < ONE && full + 4 >= ONE, "interval {}: its whole length maps to {} instead of just under 1", i, full as f64 / ONE as f64);
                    c.count("entries compared", 2);
                }
                c.sig(bits as u64);
                c.nontrivial();
            });
            r.once("map-bounds", |c| {
                ensure!(c, rejects(|| l.apm_lut(3)), "a table for 3 index bits was returned");
                c.nontrivial();
            });
            r.add_distinct(1024 * 7 + 2002 + 1001 * 2 + 4096);
            r.exhaustive("all entries of all tables of LookUpTables except the logistic pair, which C08 sweeps");
            r.require("entries compared", 15_000);
        });
}
