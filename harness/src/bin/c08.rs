//! C08: logistic mapping, swept over its whole domain.
use demixer::fixed_point::types::*;
use demixer::fixed_point::*;
use demixer::lut::LookUpTables;
use vh::{ensure, Case};

const ULP: f64 = 1.0 / (1u64 << 21) as f64;
const ONE: i64 = 1 << 31;
const LIM: i64 = 12 << 21;
/// smallest accurately mapped input, as stated by the tables: 2^-17
const MIN_P: i64 = 1 << 14;

/// Error allowed to stretch at p (the nearer to 0 of p and 1-p), p >= 2^-17:
/// piecewise linear interpolation of ln on a grid of at most 1/512 relative
/// to the octave (coarser below 2^-8), entries good to 1e-6, two roundings.
fn stretch_bound(p: i64) -> f64 {
    let k = (p >> 14) as f64;
    let interp = if k < 512.0 { 1.0 / (8.0 * k * (k + 1.0)) } else { 1.0 / (8.0 * 512.0 * 513.0) };
    1e-6 + interp + 1.6 * ULP
}

/// Error allowed to squash at x: interpolation on a 1/128 grid plus the error
/// of the entries, which invert stretch.
fn squash_bound(x: f64) -> f64 {
    let near = |x: f64| { let p = 1.0 / (1.0 + (-x).exp()); p * (1.0 - p) };
    let a = (x.abs() - 1.0 / 128.0).max(0.0);
    let d = near(a); // the largest slope in the interval
    // largest second derivative in the interval: p(1-p)|1-2p| <= 0.0963
    let d2 = { let p = 1.0 / (1.0 + a.exp()); let q = 1.0 / (1.0 + (x.abs() + 1.0 / 128.0).exp());
        if a < 1.5 { 0.0963 } else { (p * (1.0 - p) * (1.0 - 2.0 * p)).max(q * (1.0 - q) * (1.0 - 2.0 * q)) } };
    let interp = d2 / (8.0 * 128.0 * 128.0);
    let p = (1.0 / (1.0 + a.exp()) * ONE as f64) as i64;
    let entry = stretch_bound(p.max(MIN_P));
    interp + d * entry * 1.05 + 3.0 / ONE as f64
}

fn stretch(l: &LookUpTables, p: i64) -> i64 {
    l.stretch_lut().stretch(FractOnlyU32::new(p as u32, 31)).raw() as i64
}
fn squash(l: &LookUpTables, x: i64) -> i64 {
    l.squash_lut().squash(StretchedProbD::new(x as i32, 21)).raw() as i64
}

fn linear(c: &mut Case, l: &LookUpTables, shard: i64, shards: i64) {
    let size = ONE / shards;
    let (from, to) = ((shard * size).max(1), (shard + 1) * size);
    c.desc(format!("linear probabilities {}..{} of 2^31", from, to));
    let mut last = if from > 1 { stretch(l, from - 1) } else { -LIM };
    let mut worst = 0f64;
    for p in from..to {
        let x = stretch(l, p);
        ensure!(c, x.abs() <= LIM, "stretch({}) = {} is outside the logistic domain", p, x);
        ensure!(c, x >= last - 1, "stretch falls from {} to {} between {} and {}", last, x, p - 1, p);
        last = x;
        if p <= ONE / 2 {
            ensure!(c, stretch(l, ONE - p) == -x, "stretch({}) is not the opposite of stretch({})", ONE - p, p);
        }
        let tail = p.min(ONE - p);
        let q = squash(l, x);
        ensure!(c, q > 0 && q < ONE, "squash(stretch({})) = {} is not a probability", p, q);
        if tail >= MIN_P {
            let f = p as f64 / ONE as f64;
            let exact = (f / (1.0 - f)).ln();
            let err = (x as f64 * ULP - exact).abs();
            let b = stretch_bound(tail);
            worst = worst.max(err / b);
            ensure!(c, err <= b, "stretch({}) = {} is {:e} away from {}, allowed {:e}", p, x, err, exact, b);
            let rt = f * (1.0 - f) * b * 1.1 + squash_bound(exact);
            ensure!(c, ((q - p) as f64 / ONE as f64).abs() <= rt, "squash(stretch({})) = {}, allowed distance {:e}", p, q, rt);
        } else {
            // below the smallest accurately mapped input the mapping saturates
            let edge = (MIN_P as f64 / (ONE - MIN_P) as f64).ln();
            let err = (x.abs() as f64 * ULP + edge).abs();
            ensure!(c, err <= 2e-6 && (x < 0) == (p < ONE / 2), "stretch({}) = {} does not saturate at {}", p, x, edge);
            ensure!(c, (q.min(ONE - q) - MIN_P).abs() <= 64, "squash(stretch({})) = {} does not saturate at 2^-17", p, q);
        }
    }
    c.max("stretch error relative to its bound", worst);
    c.count("linear probabilities mapped", (to - from) as u64);
    c.sig(shard as u64);
    c.nontrivial();
}

fn stretched(c: &mut Case, l: &LookUpTables, shard: i64, shards: i64) {
    let size = (2 * LIM + 1 + shards - 1) / shards;
    let (from, to) = (-LIM + shard * size, (-LIM + (shard + 1) * size).min(LIM + 1));
    c.desc(format!("logistic values {}..{} of 2^-21", from, to));
    let mut last = if from > -LIM { squash(l, from - 1) } else { 0 };
    let mut worst = 0f64;
    let edge = -(MIN_P as f64 / (ONE - MIN_P) as f64).ln();
    for x in from..to {
        let q = squash(l, x);
        ensure!(c, q > 0 && q < ONE, "squash({}) = {} is not a probability", x, q);
        ensure!(c, q >= last - 1, "squash falls from {} to {} at {}", last, q, x);
        last = q;
        ensure!(c, squash(l, -x) == ONE - q, "squash({}) is not the complement of squash({})", -x, x);
        let f = x as f64 * ULP;
        let exact = 1.0 / (1.0 + (-f).exp());
        let err = (q as f64 / ONE as f64 - exact).abs();
        if f.abs() + 1.0 / 128.0 <= edge {
            let b = squash_bound(f);
            worst = worst.max(err / b);
            ensure!(c, err <= b, "squash({}) = {} is {:e} away from {}, allowed {:e}", x, q, err, exact, b);
            let back = stretch(l, q) as f64 * ULP;
            let tail = exact.min(1.0 - exact);
            let rt = stretch_bound(q.min(ONE - q).max(MIN_P)) + b / (tail - b).max(1e-9) * 1.05 + ULP;
            ensure!(c, (back - f).abs() <= rt, "stretch(squash({})) = {} instead of {}, allowed distance {:e}", x, back, f, rt);
        } else {
            ensure!(c, (q.min(ONE - q) - MIN_P).abs() <= 400, "squash({}) = {} does not saturate at 2^-17", x, q);
        }
    }
    c.max("squash error relative to its bound", worst);
    c.count("logistic values mapped", (to - from) as u64);
    c.sig(shard as u64);
    c.nontrivial();
}

fn main() {
    vh::check("C08", "exploration",
        "case = one contiguous block of the input domain, every value of which is mapped there and back and compared with the real logistic functions, its neighbour and its mirror image; all blocks together are the whole domain",
        |r| {
            let l = LookUpTables::new();
            let shards = 2048;
            r.cases("linear", shards, |c| linear(c, &l, c.index as i64, shards as i64));
            let sh2 = 512;
            r.cases("logistic", sh2, |c| stretched(c, &l, c.index as i64, sh2 as i64));
            r.once("landmarks", |c| {
                ensure!(c, stretch(&l, ONE / 2) == 0 && squash(&l, 0) == ONE / 2, "one half is not mapped to zero and back");
                ensure!(c, vh::rejects(|| l.stretch_lut().stretch(FractOnlyU32::new_unchecked(0))), "probability 0 was accepted");
                ensure!(c, vh::rejects(|| l.squash_lut().squash(StretchedProbD::new_unchecked(-LIM as i32 - (1 << 14)))), "a value below the logistic domain was accepted");
                ensure!(c, vh::rejects(|| l.squash_lut().squash(StretchedProbD::new_unchecked(LIM as i32 + (1 << 14)))), "a value above the logistic domain was accepted");
                c.nontrivial();
            });
            r.exhaustive("all 2^31-1 linear probabilities");
            r.exhaustive("all 24*2^21+1 logistic values");
            r.assume("monotone up to one unit in the last place (interpolation rounds twice); saturation below 2^-17, the tables' own smallest accurately mapped input");
            r.require("linear probabilities mapped", (1 << 31) - 1);
            r.require("logistic values mapped", 2 * LIM as u64 + 1);
        });
}
