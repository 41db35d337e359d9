//! C11: mixers against exact integer sums and the real logistic function.
use demixer::bit::Bit;
use demixer::fixed_point::types::*;
use demixer::fixed_point::*;
use demixer::lut::LookUpTables;
use demixer::mixing::mixer::*;
use vh::{ensure, Case};

const ONE: i64 = 1 << 31;
const ST: i64 = 12 << 21;
const WLIM: i64 = 8 << 21;

/// one interface over all sizes
trait Mix {
    fn set(&mut self, i: usize, sq: FractOnlyU32, st: StretchedProbD);
    fn mix(&self, l: &LookUpTables) -> (FractOnlyU32, StretchedProbD);
    fn train(&mut self, bit: Bit, sq: FractOnlyU32, max: u16, l: &LookUpTables);
    fn w(&self, i: usize) -> i64;
    fn input(&self, i: usize) -> (FractOnlyU32, StretchedProbD);
    fn n(&self) -> usize;
}
impl<M: Mixer> Mix for M {
    fn set(&mut self, i: usize, sq: FractOnlyU32, st: StretchedProbD) { self.set_input(i, sq, st) }
    fn mix(&self, l: &LookUpTables) -> (FractOnlyU32, StretchedProbD) { self.mix_all(l.squash_lut()) }
    fn train(&mut self, bit: Bit, sq: FractOnlyU32, max: u16, l: &LookUpTables) { self.update_and_reset(bit, sq, max, l.d_estimator_rates()) }
    fn w(&self, i: usize) -> i64 { self.weight(i).raw() as i64 }
    fn input(&self, i: usize) -> (FractOnlyU32, StretchedProbD) { (self.prediction_sq(i), self.prediction_st(i)) }
    fn n(&self) -> usize { self.size() }
}

#[derive(Clone, Copy)]
enum Init { Zero, First, Flat }
fn mode(i: Init) -> MixerInitializationMode {
    match i { Init::Zero => MixerInitializationMode::AllZero, Init::First => MixerInitializationMode::DominantFirst, Init::Flat => MixerInitializationMode::EqualSummingToOne }
}
fn fixed(n: usize, idx: u16, i: Init) -> Box<dyn Mix> {
    match n {
        1 => Box::new(Mixer1::new(idx, mode(i))),
        2 => Box::new(Mixer2::new(idx, mode(i))),
        3 => Box::new(Mixer3::new(idx, mode(i))),
        4 => Box::new(Mixer4::new(idx, mode(i))),
        5 => Box::new(Mixer5::new(idx, mode(i))),
        _ => unreachable!(),
    }
}

struct Model { w: Vec<i64>, idx: u16 }

fn logistic(x: f64) -> f64 { 1.0 / (1.0 + (-x).exp()) }

fn check_mix(c: &mut Case, m: &dyn Mix, st: &[i64], l: &LookUpTables, when: &str) -> (FractOnlyU32, StretchedProbD) {
    let sum: i128 = (0..m.n()).map(|i| m.w(i) as i128 * st[i] as i128).sum();
    let (q, x) = c.guarded("mixing", || m.mix(l));
    let lim = (ST as i128) << 21;
    let exact = sum.clamp(-lim, lim);
    // each product is rounded to 40 fractional bits, the sum to 21
    let err = ((x.raw() as i128) << 21) - exact;
    let tol = (1i128 << 20) + 2 * m.n() as i128 + 1;
    ensure!(c, err.abs() <= tol, "{}: logistic mix {} instead of {}/2^42 (inputs {:?})", when, x.raw(), exact, st);
    ensure!(c, q.raw() > 0 && (q.raw() as i64) < ONE, "{}: mixed probability {} is not inside (0, 1)", when, q.raw());
    let f = x.raw() as f64 / (1u64 << 21) as f64;
    let d = (q.raw() as f64 / ONE as f64 - logistic(f)).abs();
    ensure!(c, d <= 1.6e-6, "{}: mixed probability {} is {:e} away from the logistic function of {}", when, q.raw(), d, f);
    c.max("distance from the logistic function", d);
    if exact.abs() == lim { c.count("mixes at the domain limit", 1); }
    c.count("mixes", 1);
    (q, x)
}

fn inputs(c: &mut Case, n: usize, kind: u64, l: &LookUpTables) -> (Vec<FractOnlyU32>, Vec<StretchedProbD>) {
    let mut sq = vec![];
    let mut st = vec![];
    for _ in 0..n {
        let p: i64 = match kind {
            0 => *c.rng.pick(&[1, 2, 1 << 14, ONE - 1, ONE - (1 << 14), ONE / 2]),
            1 => 1 + c.rng.below(ONE as u64 - 1) as i64,
            2 => { let t = c.rng.log_uniform(ONE as u64 - 1) as i64; if c.rng.bool() { t } else { ONE - t } }
            3 => ONE - 1 - c.rng.below(1 << 12) as i64,
            _ => ONE / 2 + c.rng.range(-2000, 2000),
        };
        let p = FractOnlyU32::new(p as u32, 31);
        let x = if kind == 0 && c.rng.bool() { *c.rng.pick(&[StretchedProbD::MIN, StretchedProbD::MAX, StretchedProbD::ZERO]) } else { l.stretch_lut().stretch(p) };
        sq.push(p);
        st.push(x);
    }
    (sq, st)
}

fn history(c: &mut Case, l: &LookUpTables) {
    let size = if c.rng.chance(0.5) { c.rng.usize(1, 5) } else { c.rng.usize(1, 30) };
    let init = *c.rng.pick(&[Init::Zero, Init::First, Init::Flat]);
    let idx0 = *c.rng.pick(&[0u16, 0, 1, 5, 20, 100, 999, 1000]);
    let max = if c.rng.bool() { 1000 } else { idx0 + c.rng.below((1000 - idx0) as u64 + 1) as u16 };
    let mut m: Box<dyn Mix> = if size <= 5 && c.rng.bool() { fixed(size, idx0, init) } else { Box::new(MixerN::new(size, idx0, mode(init))) };
    ensure!(c, m.n() == size, "a mixer of {} inputs says it has {}", size, m.n());
    // starting weights
    let one = 1i64 << 21;
    match init {
        Init::Zero => for i in 0..size { ensure!(c, m.w(i) == 0, "weight {} starts at {} instead of 0", i, m.w(i)); },
        Init::First => for i in 0..size { ensure!(c, m.w(i) == if i == 0 { one } else { 0 }, "weight {} starts at {}", i, m.w(i)); },
        Init::Flat => for i in 0..size { ensure!(c, (m.w(i) * size as i64 - one).abs() <= size as i64, "weight {} starts at {} instead of 1/{}", i, m.w(i), size); },
    }
    let twin = if size <= 5 { Some(()) } else { None };
    let mut tw: Option<(Box<dyn Mix>, Box<dyn Mix>)> = twin.map(|_| {
        let i = match init { Init::Flat => Init::First, i => i };
        (fixed(size, idx0, i), Box::new(MixerN::new(size, idx0, mode(i))) as Box<dyn Mix>)
    });
    let mut model = Model { w: (0..size).map(|i| m.w(i)).collect(), idx: idx0 };
    let steps = c.rng.usize(1, 400);
    let kind = c.rng.below(6);
    let adversary = c.rng.below(6);
    // the caller may train with any error; a constant one drives weights into their limits
    let forced_zero = c.rng.bool();
    c.desc(format!("{} inputs, starting rate index {}, limit {}, {} steps, input kind {}, adversary {}", size, idx0, max, steps, kind, adversary));
    c.sig(size as u64); c.sig(idx0 as u64); c.sig(steps as u64); c.sig(kind);
    let mut stick = false;
    for step in 0..steps {
        let k = if kind == 5 { c.rng.below(5) } else { kind };
        let (sq, st) = inputs(c, size, k, l);
        let mut order: Vec<usize> = (0..size).collect();
        for i in (1..size).rev() { let j = c.rng.usize(0, i); order.swap(i, j); }
        for &i in &order { c.guarded("setting an input", || m.set(i, sq[i], st[i])); }
        for i in 0..size {
            ensure!(c, m.input(i) == (sq[i], st[i]), "input {} is read back differently", i);
            ensure!(c, m.w(i) == model.w[i], "weight {} changed without training", i);
        }
        let raw: Vec<i64> = st.iter().map(|x| x.raw() as i64).collect();
        let (q, x) = check_mix(c, &*m, &raw, l, "before training");
        ensure!(c, m.mix(l) == (q, x), "mixing twice gives different results");

        let zero = match adversary {
            0 => c.rng.bool(),
            1 => q.raw() < 1 << 30,          // always surprising
            2 => { if c.rng.chance(0.01) { stick = !stick; } stick }
            3 => st[0].raw() < 0,            // against the first input
            _ => forced_zero,
        };
        let q = if adversary >= 4 { FractOnlyU32::new(if forced_zero { 1 + c.rng.below(1 << 28) as u32 } else { (ONE - 1 - c.rng.below(1 << 28) as i64) as u32 }, 31) } else { q };
        let bit = if zero { Bit::Zero } else { Bit::One };
        let zero_mix = x;
        c.guarded("training", || m.train(bit, q, max, l));
        // error x input x half the rate 1/(index+2)
        let err = if zero { ONE - q.raw() as i64 } else { -(q.raw() as i64) };
        let mut moved_any = false;
        for i in 0..size {
            let (w0, w1) = (model.w[i], m.w(i));
            ensure!(c, w1.abs() <= WLIM, "weight {} is {} and outside its limits", i, w1);
            let step_exact = err as f64 / ONE as f64 * raw[i] as f64 * 0.5 / (model.idx as f64 + 2.0);
            let want = (w0 as f64 + step_exact).clamp(-WLIM as f64, WLIM as f64);
            ensure!(c, (w1 as f64 - want).abs() <= 0.56,
                "step {}: weight {} went from {} to {}, expected {:.2} (input {}, error {}/2^31, rate index {})", step, i, w0, w1, want, raw[i], err, model.idx);
            let dir = (err.signum() * raw[i].signum()) * (w1 - w0);
            ensure!(c, dir >= 0, "step {}: weight {} moved from {} to {} against bit {} (input {})", step, i, w0, w1, !zero as u8, raw[i]);
            moved_any |= w1 != w0;
            if w1.abs() == WLIM { c.count("weights at their limit", 1); }
            model.w[i] = w1;
        }
        model.idx = max.min(model.idx + 1);
        if moved_any { c.count("trainings that moved weights", 1); }
        c.count("trainings", 1);
        // the same inputs now predict the bit at least as strongly
        if c.rng.chance(0.2) && step + 1 < steps {
            for i in 0..size { m.set(i, sq[i], st[i]); }
            let (q2, x2) = check_mix(c, &*m, &raw, l, "after training");
            let d = x2.raw() as i64 - zero_mix.raw() as i64;
            let slack = 1 + size as i64 * 7;
            ensure!(c, if zero { d >= -slack } else { d <= slack }, "training on bit {} moved the mix from {} to {}", !zero as u8, zero_mix.raw(), x2.raw());
            // an update of the same evaluation ends the step
            c.guarded("training", || m.train(bit, q2, max, l));
            for i in 0..size { model.w[i] = m.w(i); }
            model.idx = max.min(model.idx + 1);
        }
        if let Some((a, b)) = tw.as_mut() {
            for i in 0..size { a.set(i, sq[i], st[i]); b.set(i, sq[i], st[i]); }
            let (ra, rb) = (a.mix(l), b.mix(l));
            ensure!(c, ra == rb, "mixers of fixed and of variable size {} disagree: {:?} and {:?}", size, ra, rb);
            a.train(bit, ra.0, max, l);
            b.train(bit, rb.0, max, l);
            for i in 0..size { ensure!(c, a.w(i) == b.w(i), "weight {} of mixers of fixed and of variable size {} disagree", i, size); }
            c.count("fixed and variable size compared", 1);
        }
    }
    for i in 0..size { c.sig(m.w(i) as u64); }
    c.seen("sizes and rates", size as u64 * 2000 + idx0 as u64);
    c.nontrivial();
}

/// a good input is trusted more than a misleading one
fn learning(c: &mut Case, l: &LookUpTables) {
    let n = c.rng.usize(2, 8);
    let good = c.rng.usize(0, n - 1);
    let mut m = MixerN::new(n, 0, MixerInitializationMode::EqualSummingToOne);
    c.desc(format!("{} inputs, input {} knows the bit", n, good));
    let mut cost = [0f64; 2];
    let steps = 1200;
    for s in 0..steps {
        let zero = c.rng.bool();
        for i in 0..n {
            let p = if i == good { if zero { 0.9 } else { 0.1 } } else { 0.1 + 0.8 * c.rng.f64() };
            let sq = FractOnlyU32::new((p * ONE as f64) as u32, 31);
            Mix::set(&mut m, i, sq, l.stretch_lut().stretch(sq));
        }
        let (q, _) = Mix::mix(&m, l);
        let p = q.raw() as f64 / ONE as f64;
        cost[(s * 2 >= steps) as usize] -= if zero { p } else { 1.0 - p }.log2();
        Mix::train(&mut m, if zero { Bit::Zero } else { Bit::One }, q, 1000, l);
    }
    let (a, b) = (cost[0] * 2.0 / steps as f64, cost[1] * 2.0 / steps as f64);
    ensure!(c, b < 0.152 && b <= a, "cost per bit {:.3} then {:.3}: the reliable input is not trusted", a, b);
    for i in 0..n { ensure!(c, i == good || Mix::w(&m, i) < Mix::w(&m, good), "input {} is trusted more than the reliable one", i); }
    c.count("learning runs", 1);
    c.max("late cost per bit of learning runs", b);
    c.sig(n as u64 * 100 + good as u64); let s = c.rng.u64(); c.sig(s);
    c.nontrivial();
}

fn main() {
    vh::check("C11", "exploration",
        "case = one mixer of random size and kind with a training history (random, adversarial or stationary) whose every mix and weight change is compared with exact arithmetic",
        |r| {
            let l = LookUpTables::new();
            let n = r.n(150_000, 3_000_000);
            r.cases("histories", n, |c| history(c, &l));
            let n = r.n(2000, 30_000);
            r.cases("learning", n, |c| learning(c, &l));
            r.require("trainings that moved weights", 100_000);
            r.require("weights at their limit", 20_000);
            r.require("mixes at the domain limit", 1000);
            r.require("fixed and variable size compared", 10_000);
        });
}
