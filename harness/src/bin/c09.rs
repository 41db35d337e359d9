//! C09: probability estimators, swept over their state spaces.
use demixer::bit::Bit;
use demixer::estimators::decelerating::DeceleratingEstimator as De;
use demixer::estimators::fixed_speed::FixedSpeedEstimator as Fe;
use demixer::fixed_point::types::FractOnlyU32;
use demixer::fixed_point::FixedPoint;
use demixer::lut::estimator::DeceleratingEstimatorRates as Rates;
use vh::{ensure, Case};

const P: i64 = 1 << 22; // scale of the decelerating estimator
const MAXC: u16 = 1000;

fn make(p: i64, n: u16) -> De { De::make(FractOnlyU32::new((p << 9) as u32, 31), n) }
/// prediction on the 22-bit grid
fn pred(e: &De) -> i64 { (e.prediction().raw() >> 9) as i64 }

fn transition(c: &Case, rates: &Rates, p: i64, n: u16) {
    let e = make(p, n);
    let mut out = [0i64; 2];
    for b in 0..2usize {
        let bit = if b == 0 { Bit::Zero } else { Bit::One };
        let mut f = e;
        f.update(bit, rates);
        let q = pred(&f);
        if !(q > 0 && q < P && f.prediction().raw() == (q << 9) as u32) {
            c.fail(format!("estimate {}/2^22 after {} bits became {} on bit {}: not inside (0, 1)", p, n, q, b));
        }
        let want = (n + 1).min(MAXC);
        if f.usage_count() != want {
            c.fail(format!("count {} became {} instead of {} (estimate {}, bit {})", n, f.usage_count(), want, p, b));
        }
        // toward the bit by 1/(n+2) of the distance, rounded to the grid
        let dist = if b == 0 { P - p } else { p };
        let moved = if b == 0 { q - p } else { p - q };
        // |moved - dist/(n+2)| <= 1/2 (the last step away from 0 and 1 excepted) plus the table's own truncation
        let d = moved * (n as i64 + 2) - dist;
        let clamped = dist <= 1;
        if moved < 0 || moved > dist || (!clamped && d.abs() * 2 > (n as i64 + 2) + (n as i64 + 2) / 128 + 1) || (clamped && moved != 0) {
            c.fail(format!("estimate {}/2^22 after {} bits moved by {} on bit {}, expected {}/{} ", p, n, moved, b, dist, n + 2));
        }
        out[b] = q;
    }
    // the mirrored state
    let m = make(P - p, n);
    for b in 0..2usize {
        let bit = if b == 0 { Bit::One } else { Bit::Zero };
        let mut f = m;
        f.update(bit, rates);
        if pred(&f) != P - out[b] {
            c.fail(format!("mirroring estimate {}/2^22 after {} bits: {} on bit {}, but {} for the opposite", p, n, out[b], b, pred(&f)));
        }
    }
}

fn accessors(c: &mut Case) {
    for n in 0..=MAXC {
        let p = 1 + c.rng.below(P as u64 - 1) as i64;
        let e = make(p, n);
        ensure!(c, pred(&e) == p && e.usage_count() == n, "state ({}, {}) is read back as ({}, {})", p, n, pred(&e), e.usage_count());
    }
    ensure!(c, vh::rejects(|| make(P / 2, MAXC + 1)), "a count over the limit was accepted");
    ensure!(c, vh::rejects(|| De::make(FractOnlyU32::new((1 << 30) + 1 + c.index as u32 % 511, 31), 3)), "a prediction off the grid was accepted");
    let e = De::new();
    ensure!(c, pred(&e) == P / 2 && e.usage_count() == 0, "a new estimator is not at one half");
    ensure!(c, pred(&make(0, 5)) > 0 && pred(&make(0, 5)) < 4, "an estimate of 0 is not moved inside (0, 1)");
}

/// p_n = (zeros + 1/2) / (n + 1) while the count is below its limit, an
/// exponential average after that.
fn sequences(c: &mut Case, rates: &Rates) {
    let len = c.rng.usize(1, 6000);
    let kind = c.rng.below(5);
    let f = match kind { 0 => 0.0, 1 => 1.0, 2 => 0.5, 3 => 0.01, _ => c.rng.f64() };
    c.desc(format!("{} bits, P(0) = {:.3}", len, f));
    let mut e = De::new();
    let mut g = Fe::default();
    let mut exact = 0.5f64;
    let mut gx = 0.5f64;
    let mut zeros = 0u64;
    let mut phase = f;
    for n in 0..len {
        if kind == 4 && c.rng.chance(0.001) { phase = c.rng.f64(); } // non-stationary
        let zero = c.rng.chance(phase);
        zeros += zero as u64;
        let bit = if zero { Bit::Zero } else { Bit::One };
        e.update(bit, rates);
        g.update(bit);
        let t = if zero { 1.0 } else { 0.0 };
        let k = (n as f64).min(MAXC as f64);
        exact += (t - exact) / (k + 2.0);
        gx += (t - gx) / 128.0;
        if n < MAXC as usize {
            let freq = (zeros as f64 + 0.5) / (n as f64 + 2.0);
            ensure!(c, (freq - exact).abs() < 1e-9, "harness: reference disagrees with itself");
        }
        // every step rounds by at most half a unit of 2^-22; errors decay at the adaptation rate
        let err = (e.prediction().as_f64() - exact).abs() * P as f64;
        let bound = 0.6 * (k + 3.0) + 2.0;
        c.max("decelerating estimator error relative to its bound", err / bound);
        ensure!(c, err <= bound, "after {} bits with {} zeros the estimate is {}, the frequency is {}", n + 1, zeros, e.prediction().as_f64(), exact);
        let err = (g.prediction().as_f64() - gx).abs() * 65536.0;
        c.max("fixed-speed estimator error in units", err);
        ensure!(c, err <= 129.0, "after {} bits the fixed-speed estimate is {}, the average is {}", n + 1, g.prediction().as_f64(), gx);
    }
    c.count("sequence bits", len as u64);
    if len > 900 && kind == 0 { ensure!(c, e.prediction().as_f64() < 0.001, "constant ones do not converge: {}", e.prediction().as_f64()); c.count("constant inputs converged", 1); }
    if len > 900 && kind == 1 { ensure!(c, e.prediction().as_f64() > 0.999, "constant zeros do not converge: {}", e.prediction().as_f64()); c.count("constant inputs converged", 1); }
    c.sig(len as u64); c.sig(zeros);
    c.nontrivial();
}

fn fixed_speed(c: &mut Case) {
    let at = |e: &Fe| e.prediction().raw() as i64;
    let unit = 1i64 << 15;
    for p in 1..=65535u16 {
        let mut z = Fe::new(p);
        ensure!(c, at(&z) == p as i64 * unit, "estimate {} is read back as {}", p, at(&z));
        z.update(Bit::Zero);
        let mut o = Fe::new(p);
        o.update(Bit::One);
        let (up, down) = (at(&z) - p as i64 * unit, p as i64 * unit - at(&o));
        for (q, moved, dist) in [(at(&z), up, 65536 - p as i64), (at(&o), down, p as i64)] {
            ensure!(c, q > 0 && q < 1 << 31 && q % unit == 0, "fixed-speed estimate {} became {}: not inside (0, 1)", p, q);
            ensure!(c, moved >= 0 && moved <= dist * unit, "fixed-speed estimate {} moved by {}", p, moved);
            // one 128th of the distance, rounded toward staying
            ensure!(c, (moved / unit) * 128 <= dist && (moved / unit + 1) * 128 > dist, "fixed-speed estimate {} moved by {} units, distance {}", p, moved / unit, dist);
        }
        let mut m = Fe::new((65536 - p as u32) as u16);
        m.update(Bit::One);
        ensure!(c, at(&m) == (1 << 31) - at(&z), "fixed-speed estimate {} is not mirrored", p);
    }
    ensure!(c, at(&Fe::default()) == 1 << 30, "the default fixed-speed estimate is not one half");
    ensure!(c, vh::rejects(|| Fe::new(0)), "a fixed-speed estimate of 0 was accepted");
    c.count("fixed-speed transitions", 2 * 65535);
    c.nontrivial();
}

fn main() {
    vh::check("C09", "exploration",
        "case = one count with a block of estimates (every transition of the block on both bits and its mirror), or one bit sequence compared with its exact frequency",
        |r| {
            let rates = Rates::make_default();
            r.cases("decelerating-states", MAXC as u64 + 1, |c| {
                let n = c.index as u16;
                for p in 1..P { transition(c, &rates, p, n); }
                c.desc(format!("count {}: all estimates, both bits, and their mirror images", n));
                c.count("decelerating states", P as u64 - 1);
                c.sig(n as u64);
                c.nontrivial();
            });
            let n = r.n(3_000, 100_000);
            r.cases("sequences", n, |c| sequences(c, &rates));
            r.once("fixed-speed-states", fixed_speed);
            r.cases("accessors", 50, accessors);
            r.exhaustive("all 65535 states of the fixed-speed estimator");
            r.exhaustive("all (2^22-1) x 1001 states of the decelerating estimator");
            r.require("decelerating states", 1001 * (P as u64 - 1));
            r.require("constant inputs converged", 100);
        });
}
