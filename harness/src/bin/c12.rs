//! C12: adaptive probability maps against a real-valued model of their entries.
use demixer::bit::Bit;
use demixer::fixed_point::types::*;
use demixer::fixed_point::*;
use demixer::lut::LookUpTables;
use demixer::mixing::apm::AdaptiveProbabilityMap as Map;
use std::collections::HashMap;
use vh::{ensure, Case, Rng};

const ONE: i64 = 1 << 31;
const LIM: i64 = 12 << 21;

fn fr(p: i64) -> FractOnlyU32 { FractOnlyU32::new(p as u32, 31) }
fn sp(x: i64) -> StretchedProbD { StretchedProbD::new(x as i32, 21) }

/// Model of one map: entries at the interval stops of every context, each
/// with the distance from the real map that rounding can have caused.
struct Model {
    bits: u8,
    stops: Vec<i64>,
    e: HashMap<usize, Vec<(f64, f64)>>,
    untouched: Vec<(f64, f64)>,
}

struct At { left: usize, wl: f64, wr: f64 }

impl Model {
    fn new(bits: u8, l: &LookUpTables) -> Model {
        let n = (24 << bits) + 1;
        let stops: Vec<i64> = (0..n).map(|i| l.squash_lut().squash(sp(((i as i64) - (12 << bits)) << (21 - bits))).raw() as i64).collect();
        let row: Vec<(f64, f64)> = stops.iter().map(|s| (*s as f64, 0.0)).collect();
        Model { bits, stops, e: HashMap::new(), untouched: row }
    }
    /// the interval of a consistent pair; at a stop the logistic value decides
    fn locate(&self, p: i64, x: i64) -> At {
        let n = self.stops.len();
        let p = p.clamp(self.stops[0], self.stops[n - 1]);
        let x = x.clamp(-LIM + 1, LIM - 1);
        let mut i = ((x >> (21 - self.bits)) + (12 << self.bits)) as usize;
        if p < self.stops[i] { i -= 1; }
        let len = (self.stops[i + 1] - self.stops[i]) as f64;
        let wr = if len > 0.0 { (p - self.stops[i]) as f64 / len } else { 0.0 };
        At { left: i, wl: 1.0 - wr, wr }
    }
    fn row(&self, ctx: usize) -> &Vec<(f64, f64)> {
        self.e.get(&ctx).unwrap_or(&self.untouched)
    }
    fn refined(&self, ctx: usize, a: &At) -> (f64, f64) {
        let row = self.row(ctx);
        let (l, r) = (row[a.left], row[a.left + 1]);
        (l.0 * a.wl + r.0 * a.wr, l.1 * a.wl + r.1 * a.wr + 1.5 + 4e-9 * (r.0 - l.0).abs())
    }
    fn train(&mut self, ctx: usize, a: &At, zero: bool, rate: u8, half: bool) {
        let row = self.e.entry(ctx).or_insert_with(|| self.untouched.clone());
        for (k, w) in [(0, if half { 0.5 } else { a.wl }), (1, if half { 0.5 } else { a.wr })] {
            let e = &mut row[a.left + k];
            let f = w / (1u64 << rate) as f64;
            let t = if zero { ONE as f64 } else { 0.0 };
            e.0 += (t - e.0) * f;
            // truncated error, rounded product, rounded weight
            e.1 = e.1 * (1.0 - f) + w + 0.5 + 0.01 + (ONE >> rate) as f64 * 2e-9;
        }
    }
}

#[derive(Clone, Copy)]
struct Op { ctx: usize, p: i64, x: i64, zero: bool, rate: u8, half: bool }

fn pair(r: &mut Rng, m: &Model, l: &LookUpTables) -> (i64, i64) {
    let scale = 21 - m.bits;
    if r.bool() {
        // from the linear domain
        let p = match r.below(5) {
            0 => { let s = *r.pick(&m.stops); (s + r.range(-3, 3)).clamp(1, ONE - 1) }
            1 => { let i = r.usize(0, m.stops.len() - 2); ((m.stops[i] + m.stops[i + 1]) / 2 + r.range(-2, 2)).clamp(1, ONE - 1) }
            2 => { let t = r.log_uniform(ONE as u64 - 1) as i64; if r.bool() { t } else { ONE - t } }
            _ => 1 + r.below(ONE as u64 - 1) as i64,
        };
        (p, l.stretch_lut().stretch(fr(p)).raw() as i64)
    } else {
        let x = match r.below(5) {
            0 => ((r.range(-12 << m.bits, 12 << m.bits) << scale) + r.range(-2, 2)).clamp(-LIM, LIM),
            1 => *r.pick(&[-LIM, -LIM + 1, LIM, LIM - 1, 0, 1, -1]),
            _ => r.range(-LIM, LIM),
        };
        (l.squash_lut().squash(sp(x)).raw() as i64, x)
    }
}

fn apply(m: &mut Map, o: &Op, l: &LookUpTables, bits: u8) -> i64 {
    let r = m.refine(o.ctx, fr(o.p), sp(o.x), l.apm_lut(bits)).raw() as i64;
    m.update_predictions(o.ctx, if o.zero { Bit::Zero } else { Bit::One }, o.rate, o.half);
    r
}

fn history(c: &mut Case, l: &LookUpTables, many: bool) {
    let bits = c.rng.below(3) as u8;
    // maps with more contexts than 16 (and 17) bits can number
    let many = if many { c.rng.usize(65_537, 200_000) } else { 0 };
    let contexts = if many > 0 { many } else if c.rng.chance(0.1) { 256 } else { c.rng.usize(1, 6) };
    let len = if c.rng.chance(0.2) { c.rng.usize(300, 3000) } else { c.rng.usize(1, 150) };
    let rate = *c.rng.pick(&[1u8, 1, 2, 3, 4, 5, 5, 6, 7, 10, 20, 29]);
    let mixed_rates = c.rng.chance(0.2);
    let half = c.rng.bool();
    let bias = *c.rng.pick(&[0.0, 1.0, 0.5, 0.9, 0.02]);
    let focus = c.rng.chance(0.5); // few inputs, so that entries are driven to their limits
    let mut model = Model::new(bits, l);
    let few: Vec<(i64, i64)> = (0..4).map(|_| pair(&mut c.rng, &model, l)).collect();
    c.desc(format!("{} contexts, {} fractional index bits, {} steps, rate {}, half weights {}, P(0) {}", contexts, bits, len, rate, half, bias));
    let mut real = c.guarded("making a map", || Map::new(contexts, bits, l.squash_lut()));
    let mut ops: Vec<Op> = vec![];
    for s in 0..len {
        let (p, x) = if focus && c.rng.chance(0.9) { *c.rng.pick(&few) } else { pair(&mut c.rng, &model, l) };
        let ctx = if many == 0 { c.rng.usize(0, contexts - 1) } else {
            // contexts that a narrowed index would confuse
            c.count("refinements in maps of more than 65536 contexts", 1);
            let near = *c.rng.pick(&[0usize, 1, 255, 256, 65_535, 65_536, 65_537, 131_071, 131_072, contexts - 1]);
            if near < contexts { near } else { c.rng.usize(0, contexts - 1) }
        };
        let o = Op { ctx, p, x, zero: c.rng.chance(bias),
            rate: if mixed_rates { 1 + c.rng.below(29) as u8 } else { rate }, half: if mixed_rates { c.rng.bool() } else { half } };
        let a = model.locate(p, x);
        let (want, tol) = model.refined(o.ctx, &a);
        let what = format!("step {}: refining {}/2^31, {}/2^21 in context {}", s, p, x, o.ctx);
        let got = c.guarded(&what, || apply(&mut real, &o, l, bits));
        ensure!(c, got > 0 && got < ONE, "{} gave {}: not inside (0, 1)", what, got);
        ensure!(c, (got as f64 - want).abs() <= tol, "{} gave {}, the neighbouring entries give {:.1} (allowed distance {:.1})", what, got, want, tol);
        c.max("allowed distance in units of 2^-31", tol);
        if a.wr == 0.0 || a.wl == 0.0 { c.count("refinements at interval stops", 1); }
        if got >= ONE - 8 || got < 8 { c.count("refinements at the ends of the range", 1); }
        model.train(o.ctx, &a, o.zero, o.rate, o.half);
        c.sig(p as u64); c.sig(o.ctx as u64 * 2 + o.zero as u64);
        ops.push(o);
    }
    c.count("refinements", len as u64);
    c.seen("intervals used", bits as u64);
    // every entry, by replaying the history into fresh maps and reading one entry of each
    if contexts <= 6 && (len <= 30 || c.rng.chance(0.02)) {
        for ctx in 0..contexts {
            for i in 0..model.stops.len() {
                let mut m = Map::new(contexts, bits, l.squash_lut());
                for o in &ops { apply(&mut m, o, l, bits); }
                let x = ((i as i64) - (12 << bits)) << (21 - bits);
                let got = c.guarded("reading an entry", || m.refine(ctx, fr(model.stops[i]), sp(x), l.apm_lut(bits))).raw() as i64;
                let (want, tol) = model.refined(ctx, &model.locate(model.stops[i], x));
                ensure!(c, (got as f64 - want).abs() <= tol, "after {} steps entry {} of context {} is {}, expected {:.1} (allowed distance {:.1})", len, i, ctx, got, want, tol);
                c.count("entries read back", 1);
                if model.row(ctx)[i].1 == 0.0 { c.count("untouched entries read back", 1); }
            }
        }
    }
    c.nontrivial();
}

/// every consistent pair is accepted and, by an untrained map, returned
fn identity(c: &mut Case, l: &LookUpTables, bits: u8, from: i64, to: i64, stride: i64, linear: bool) {
    let model = Model::new(bits, l);
    let (lo, hi) = (model.stops[0], model.stops[model.stops.len() - 1]);
    c.desc(format!("{} {}..{} with {} fractional index bits", if linear { "linear" } else { "logistic" }, from, to, bits));
    let mut v = from;
    let mut n = 0u64;
    while v < to {
        let mut m = Map::new(1, bits, l.squash_lut());
        // the map is trained at the slowest rate to release it, so a map is used a few times only
        for k in 0..64 {
            if v >= to { break; }
            let (p, x) = if linear { (v, l.stretch_lut().stretch(fr(v)).raw() as i64) } else { (l.squash_lut().squash(sp(v)).raw() as i64, v) };
            let r = vh::caught(|| m.refine(0, fr(p), sp(x), l.apm_lut(bits)));
            let r = match r { Ok(r) => r.raw() as i64, Err(e) => c.fail(format!("refining {}/2^31, {}/2^21 failed: {}", p, x, e)) };
            let want = p.clamp(lo, hi);
            if (r - want).abs() > 3 + 4 * k {
                c.fail(format!("an untrained map refined {}/2^31, {}/2^21 to {}", p, x, r));
            }
            m.update_predictions(0, if k % 2 == 0 { Bit::Zero } else { Bit::One }, 29, false);
            n += 1;
            v += if stride == 1 { 1 } else { 1 + c.rng.below(2 * stride as u64 - 1) as i64 };
        }
    }
    c.count("pairs refined by untrained maps", n);
    c.sig(from as u64); c.sig(bits as u64 * 2 + linear as u64);
    c.nontrivial();
}

/// both ends of one interval driven to their limit, then refined around the middle
fn saturated(c: &mut Case, l: &LookUpTables, bits: u8, i: usize) {
    let model = Model::new(bits, l);
    let mid = (model.stops[i] + model.stops[i + 1]) / 2;
    c.desc(format!("interval {} with {} fractional index bits", i, bits));
    for zero in [true, false] {
        for rate in 1..=4u8 {
            let mut m = Map::new(1, bits, l.squash_lut());
            for s in 0..900 {
                let p = mid + (s % 7) - 3;
                let o = Op { ctx: 0, p, x: l.stretch_lut().stretch(fr(p)).raw() as i64, zero, rate, half: true };
                let what = format!("refining {} between saturated entries", p);
                let got = c.guarded(&what, || apply(&mut m, &o, l, bits));
                ensure!(c, got > 0 && got < ONE, "{} gave {}: not inside (0, 1)", what, got);
                ensure!(c, s < 890 || got.min(ONE - got) < 1 << (rate + 1), "{} gave {} after {} trainings on bit {} at rate {}", what, got, s, !zero as u8, rate);
            }
            c.count("refinements between saturated entries", 900);
        }
    }
    c.sig(bits as u64 * 1000 + i as u64);
    c.nontrivial();
}

fn main() {
    vh::check("C12", "exploration",
        "case = one map with a training history, every refinement (and, by replay, every entry) of which is compared with a real-valued model, or one block of inputs to untrained maps",
        |r| {
            let l = LookUpTables::new();
            let n = r.n(40_000, 1_000_000);
            r.cases("histories", n, |c| history(c, &l, false));
            let n = r.n(40, 600);
            r.cases("many-contexts", n, |c| history(c, &l, true));
            r.cases("saturated", 24 + 48 + 96, |c| {
                let i = c.index as usize;
                let (b, i) = if i < 24 { (0, i) } else if i < 72 { (1, i - 24) } else { (2, i - 72) };
                saturated(c, &l, b, i)
            });
            let shards = 512;
            r.cases("untrained-logistic", 3 * shards, |c| {
                let (b, i) = ((c.index % 3) as u8, (c.index / 3) as i64);
                let size = (2 * LIM + shards as i64) / shards as i64;
                identity(c, &l, b, -LIM + i * size, (-LIM + (i + 1) * size).min(LIM + 1), 1, false)
            });
            let stride = r.n(24, 1) as i64;
            let shards = 1024;
            r.cases("untrained-linear", 3 * shards, |c| {
                let (b, i) = ((c.index % 3) as u8, (c.index / 3) as i64);
                let size = ONE / shards as i64;
                identity(c, &l, b, (i * size).max(1), (i + 1) * size, stride, true)
            });
            r.exhaustive("all logistic values with their linear counterparts, three resolutions, untrained map");
            if stride == 1 { r.exhaustive("all 2^31-1 linear probabilities with their logistic counterparts, three resolutions, untrained map"); }
            r.require("refinements", 1_000_000);
            r.require("refinements in maps of more than 65536 contexts", 1000);
            r.require("entries read back", 50_000);
            r.require("untouched entries read back", 10_000);
            r.require("refinements at interval stops", 10_000);
            r.require("refinements at the ends of the range", 1000);
            r.require("pairs refined by untrained maps", 150_000_000);
        });
}
