//! C10: costs of bits, base-2 logarithms and running cost averages.
use demixer::bit::Bit;
use demixer::coding::FinalProbability;
use demixer::estimators::cost::CostTracker;
use demixer::fixed_point::types::*;
use demixer::fixed_point::*;
use demixer::lut::log2::Log2Lut;
use demixer::lut::LookUpTables;
use vh::{ensure, Case};

struct U32<const F: u8>(u32);
struct U64<const F: u8>(u64);
impl<const F: u8> FixedPoint for U32<F> {
    type Raw = u32;
    fn raw(&self) -> u32 { self.0 }
    fn new_unchecked(raw: u32) -> Self { U32(raw) }
    const FRACTIONAL_BITS: u8 = F;
}
impl<const F: u8> FixedPoint for U64<F> {
    type Raw = u64;
    fn raw(&self) -> u64 { self.0 }
    fn new_unchecked(raw: u64) -> Self { U64(raw) }
    const FRACTIONAL_BITS: u8 = F;
}

const UNIT: f64 = 2048.0;
/// The table takes the first 11 bits after the leading one: the argument is
/// low by at most one part in 2048 (1/ln 2 units), the entry by half a unit.
const LOW: f64 = 1.4427 + 0.5 + 0.001;
const HIGH: f64 = 0.501;

/// reported logarithm minus the real one, in units
fn within(c: &Case, what: &str, got: i32, exact: f64) -> f64 {
    let d = got as f64 - exact * UNIT;
    if !(d <= HIGH && d >= -LOW) {
        c.fail(format!("{}: reported {}/2048, real {}/2048", what, got, exact * UNIT));
    }
    d
}

fn bit_costs(c: &mut Case, lut: &Log2Lut, from: u32, to: u32) {
    c.desc(format!("probabilities {}..{} of 2^23", from, to));
    let top = 1u32 << 23;
    let cost = |p: u32, b: Bit| FinalProbability::new(p, 23).estimate_cost(b, lut).raw();
    let mut last = cost((from.max(2) - 1).min(top - 1), Bit::Zero);
    let mut last1 = cost((from.max(2) - 1).min(top - 1), Bit::One);
    for p in from.max(1)..to.min(top) {
        let (z, o) = (cost(p, Bit::Zero), cost(p, Bit::One));
        ensure!(c, z > 0 && o > 0, "cost of a bit at probability {} is {} or {}", p, z, o);
        let f = p as f64 / top as f64;
        within(c, "cost of 0", -z, f.log2());
        within(c, "cost of 1", -o, (1.0 - f).log2());
        ensure!(c, z <= last && o >= last1, "costs go from {}, {} to {}, {} as P(0) grows to {}", last, last1, z, o, p);
        last = z;
        last1 = o;
    }
    c.count("bit costs", 2 * (to - from) as u64);
    c.sig(from as u64);
    c.nontrivial();
}

fn log32(c: &mut Case, lut: &Log2Lut, stride: u64, shard: u64, shards: u64) {
    let (from, to) = (((1u64 << 32) / shards * shard).max(1), (1u64 << 32) / shards * (shard + 1));
    let mut x = from;
    let mut n = 0;
    let mut last = i32::MIN;
    while x < to {
        let v = x as u32;
        let g = U32::<0>(v).log2(lut).raw();
        within(c, "log2 of a 32-bit integer", g, (v as f64).log2());
        if g < last { c.fail(format!("log2 falls from {} to {} at {}", last, g, v)); }
        last = g;
        n += 1;
        x += if stride == 1 { 1 } else { 1 + c.rng.below(2 * stride - 1) };
    }
    c.count("32-bit logarithms", n);
    c.sig(shard);
    c.nontrivial();
}

fn formats(c: &mut Case, lut: &Log2Lut) {
    macro_rules! f32s { ($($f:literal)*) => { $({
        let v = c.rng.log_uniform(u32::MAX as u64) as u32;
        within(c, concat!("log2 with fractional bits ", $f), U32::<$f>(v).log2(lut).raw(), (v as f64).log2() - $f as f64);
    })* } }
    macro_rules! f64s { ($($f:literal)*) => { $({
        let v = match c.rng.below(4) {
            0 => c.rng.u64().max(1),
            1 => u64::MAX - c.rng.log_uniform(1 << 60),
            2 => { let b = c.rng.below(64); (1u64 << b).wrapping_add(c.rng.below(5).wrapping_sub(2)).max(1) }
            _ => c.rng.log_uniform(u64::MAX) };
        within(c, concat!("log2 with fractional bits ", $f), U64::<$f>(v).log2(lut).raw(), (v as f64).log2() - $f as f64);
        let w = v.saturating_add(c.rng.log_uniform(u64::MAX));
        ensure!(c, U64::<$f>(w).log2(lut).raw() >= U64::<$f>(v).log2(lut).raw(), "log2 falls between {} and {}", v, w);
    })* } }
    for _ in 0..50 {
        f32s!(0 1 7 11 12 16 20 21 23 30 31);
        f64s!(0 1 7 11 12 31 32 40 52 53 62 63);
    }
    // powers of two are exact
    for b in 0..64 {
        ensure!(c, U64::<31>(1 << b).log2(lut).raw() == (b - 31) * 2048, "log2 of 2^{}", b - 31);
        if b < 32 { ensure!(c, U32::<23>(1 << b).log2(lut).raw() == (b - 23) * 2048, "log2 of 2^{}", b - 23); }
    }
    ensure!(c, vh::rejects(|| U32::<5>(0).log2(lut)) && vh::rejects(|| U64::<5>(0).log2(lut)), "log2 of 0 was accepted");
    c.count("logarithms in other formats", 50 * 23);
    let d = c.rng.u64();
    c.sig(d);
    c.nontrivial();
}

fn tracker(c: &mut Case, v: u16, costs: &[i32]) {
    let t = CostTracker::new(v);
    if t.raw() != v { c.fail(format!("tracker {} is read back as {}", v, t.raw())); }
    for &k in costs {
        let got = t.updated(Log2D::new(k, 11)).raw() as i64;
        // average * 16 loses a 16th, rounded to nearest, and gains the cost
        let want = (v as i64 - (v as i64 + 8) / 16 + k as i64).min(65535);
        let slack = if v as i64 + 8 > 65535 { 1 } else { 0 };
        if (got - want).abs() > slack {
            c.fail(format!("running average {}/16 with cost {} became {}/16, expected {}/16", v, k, got, want));
        }
        // in between, on the scale of the tracker, which saturates
        let target = (k as i64 * 16).min(65535);
        let (lo, hi) = ((v as i64).min(target), (v as i64).max(target));
        if got < lo || got > hi {
            c.fail(format!("running average {}/16 with cost {} became {}/16, outside both", v, k, got));
        }
    }
}

fn on_bit(c: &mut Case, l: &LookUpTables) {
    for _ in 0..200 {
        let p = match c.rng.below(4) {
            0 => c.rng.log_uniform((1 << 31) - 1),
            1 => (1 << 31) - c.rng.log_uniform((1 << 31) - 1),
            2 => *c.rng.pick(&[1, 127, 128, 129, (1 << 31) - 1, (1 << 31) - 128, (1 << 31) - 127, 1 << 30]),
            _ => 1 + c.rng.below((1 << 31) - 1) } as u32;
        let v = c.rng.below(65536) as u16;
        for b in [Bit::Zero, Bit::One] {
            let got = CostTracker::new(v).updated_on_bit(FractOnlyU32::new(p, 31), b, l).raw() as i64;
            // probability rounded to 23 bits and kept inside (0, 1)
            let q = ((p as u64 + 128) >> 8).clamp(1, (1 << 23) - 1) as f64 / (1 << 23) as f64;
            let exact = -(if b.is_0() { q } else { 1.0 - q }).log2() * UNIT;
            let base = v as i64 - (v as i64 + 8) / 16;
            let (lo, hi) = ((base as f64 + exact - HIGH).min(65535.0), (base as f64 + exact + LOW).min(65535.0) + if v > 65527 { 1.0 } else { 0.0 });
            ensure!(c, got as f64 >= lo && got as f64 <= hi,
                "average {}/16 after a bit {} at probability {}/2^31 became {}/16, expected {}..{}", v, b.to_u8(), p, got, lo, hi);
        }
        c.sig(p as u64);
    }
    c.count("tracker updates on bits", 400);
    c.nontrivial();
}

fn main() {
    vh::check("C10", "exploration",
        "case = one block of probabilities or operands, every one compared with the real logarithm and its neighbour, or one tracker state with many costs",
        |r| {
            let l = LookUpTables::new();
            let lut = Log2Lut::new();
            r.cases("bit-costs", 1024, |c| { let s = 1 << 13; let i = c.index as u32; bit_costs(c, &lut, i * s, (i + 1) * s) });
            let stride = r.n(3, 1);
            r.cases("log2-32", 1024, |c| { let i = c.index; log32(c, l.log2_lut(), stride, i, 1024) });
            let n = r.n(2_000, 100_000);
            r.cases("log2-formats", n, |c| formats(c, &lut));
            let few = !r.thorough();
            r.cases("tracker-states", 65536, |c| {
                let v = c.index as u16;
                let mut costs: Vec<i32> = vec![1, 2, 47104, 47103, 65535, v as i32 / 16, v as i32 / 16 + 1, (v as i32 / 16).max(2) - 1];
                costs.retain(|k| *k > 0);
                if few { for _ in 0..300 { costs.push(c.rng.log_uniform(65535) as i32); costs.push(1 + c.rng.below(65535) as i32); } }
                else { costs.extend(1..=47104); }
                tracker(c, v, &costs);
                c.count("tracker updates", costs.len() as u64);
                c.sig(v as u64);
                c.nontrivial();
            });
            let n = r.n(3_000, 100_000);
            r.cases("tracker-on-bits", n, |c| on_bit(c, &l));
            r.once("refusals", |c| {
                for k in [0, -1, i32::MIN, 65536, i32::MAX] {
                    ensure!(c, vh::rejects(|| CostTracker::new(5).updated(Log2D::new(k, 11))), "cost {} was accepted", k);
                }
                ensure!(c, CostTracker::INITIAL.raw() == 16 * 2048, "the initial average is not one bit per bit");
                c.nontrivial();
            });
            r.exhaustive("all 2^23-1 probabilities with both bits");
            if stride == 1 { r.exhaustive("all 32-bit operands of the logarithm"); r.exhaustive("all tracker states with all costs up to 23 bits"); }
            r.require("bit costs", (1 << 24) - 4);
            r.require("32-bit logarithms", 1 << 29);
            r.require("tracker updates", 30_000_000);
        });
}
