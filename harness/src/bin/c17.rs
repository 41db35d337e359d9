//! C17: table indexing is a bijection onto 0..size-1, row-major, rejecting
//! bad coordinates; banks addressed this way train exactly the addressed cell.
use demixer::bit::Bit;
use demixer::estimators::decelerating::DeceleratingEstimator;
use demixer::fixed_point::types::StretchedProbD;
use demixer::fixed_point::FixedPoint;
use demixer::lut::LookUpTables;
use demixer::mixing::mixer::{FixedSizeMixer, Mixer, Mixer3, MixerInitializationMode};
use demixer::predictor::kits::{EstimatorsWithIndexer, MixersWithIndexer};
use demixer::util::indexer::*;
use vh::{ensure, rejects, Case};

fn row_major(dims: &[usize], at: &[usize]) -> usize {
    let mut stride = 1;
    let mut sum = 0;
    for k in (0..dims.len()).rev() {
        sum += at[k] * stride;
        stride *= dims[k];
    }
    sum
}

fn index<I: Indexer>(i: &mut I, at: &[usize]) -> usize {
    for &x in at {
        i.with_sub_index(x);
    }
    i.get_array_index_and_reset()
}

fn whole<I: Indexer>(c: &mut Case, dims: &[usize]) {
    let size: usize = dims.iter().product();
    let mut i = I::new(dims.to_vec());
    ensure!(c, i.get_array_size() == size, "{:?}: size {} reported", dims, i.get_array_size());
    let mut hit = vec![false; size];
    let mut at = vec![0usize; dims.len()];
    if size == 0 {
        return;
    }
    let random_order = c.rng.bool();
    for step in 0..size {
        let pos = if random_order { (step * 7919 + 13) % size } else { step };
        let mut rest = pos;
        for k in (0..dims.len()).rev() {
            at[k] = rest % dims[k];
            rest /= dims[k];
        }
        let got = c.guarded("indexing", || index(&mut i, &at));
        let want = row_major(dims, &at);
        ensure!(c, got == want, "{:?} at {:?}: index {}, row-major position is {}", dims, at, got, want);
        hit[got] = true;
        c.count("coordinates mapped", 1);
    }
    if !random_order {
        ensure!(c, hit.iter().all(|&x| x), "{:?}: not every cell is reached", dims);
    }
    ensure!(c, i.get_array_size() == size, "{:?}: size changed after use", dims);
}

fn bad<I: Indexer>(c: &mut Case, dims: &[usize]) {
    // each refusal on its own indexer, after some legal use
    let n = dims.len();
    if dims.iter().any(|&d| d == 0) {
        return;
    }
    let warm = |c: &mut Case| {
        let mut i = I::new(dims.to_vec());
        for _ in 0..c.rng.below(3) {
            let at: Vec<usize> = dims.iter().map(|&d| c.rng.below(d as u64) as usize).collect();
            let got = index(&mut i, &at);
            ensure!(c, got == row_major(dims, &at), "wrong index {} for {:?} in {:?}", got, at, dims);
        }
        i
    };
    for k in 0..n {
        let at: Vec<usize> = dims.iter().map(|&d| c.rng.below(d as u64) as usize).collect();
        let wrong = match c.rng.below(5) {
            0 | 1 => dims[k],
            2 => dims[k] + c.rng.usize(1, 5),
            3 => usize::MAX,
            _ => dims[k].saturating_mul(c.rng.usize(1, 1 << 40)),
        };
        let mut i = warm(c);
        at[..k].iter().for_each(|&x| { i.with_sub_index(x); });
        ensure!(c, rejects(|| i.with_sub_index(wrong)), "{:?}: coordinate {} = {} accepted", dims, k, wrong);
        // too few coordinates
        let mut i = warm(c);
        at[..k].iter().for_each(|&x| { i.with_sub_index(x); });
        ensure!(c, rejects(|| i.get_array_index_and_reset()), "{:?}: {} coordinates accepted as an index", dims, k);
        if k > 0 {
            let mut i = warm(c);
            at[..k].iter().for_each(|&x| { i.with_sub_index(x); });
            ensure!(c, rejects(|| i.get_array_size()), "{:?}: size asked amid coordinates", dims);
        }
        c.count("refusals observed", 3);
    }
    // too many
    let mut i = warm(c);
    let at: Vec<usize> = dims.iter().map(|&d| c.rng.below(d as u64) as usize).collect();
    at.iter().for_each(|&x| { i.with_sub_index(x); });
    ensure!(c, rejects(|| i.with_sub_index(0)), "{:?}: an extra coordinate was accepted", dims);
    // wrong number of dimensions
    let mut more = dims.to_vec();
    more.push(2);
    ensure!(c, rejects(|| I::new(more.clone())), "{} dimensions accepted", n + 1);
    ensure!(c, rejects(|| I::new(dims[1..].to_vec())), "{} dimensions accepted", n - 1);
    c.count("refusals observed", 3);
}

fn by_n(c: &mut Case, dims: &[usize], f: u8) {
    macro_rules! go { ($t:ty) => { if f == 0 { whole::<$t>(c, dims) } else { bad::<$t>(c, dims) } } }
    match dims.len() {
        1 => go!(Indexer1),
        2 => go!(Indexer2),
        3 => go!(Indexer3),
        4 => go!(Indexer4),
        5 => go!(Indexer5),
        _ => go!(Indexer6),
    }
}

fn coords(i: &mut Indexer3, at: [usize; 3]) -> &mut Indexer3 {
    i.with_sub_index(at[0]).with_sub_index(at[1]).with_sub_index(at[2])
}

fn inputs(m: &mut Mixer3, luts: &LookUpTables, st: &[i32; 3]) {
    for k in 0..3 {
        let x = StretchedProbD::new(st[k], 21);
        m.set_input(k, luts.squash_lut().squash(x), x);
    }
}

fn banks(c: &mut Case, luts: &LookUpTables) {
    let dims = if c.index % 64 == 0 {
        // like the banks of the predictor
        *c.rng.pick(&[[3, 256, 8], [16, 16, 21], [64, 64, 4], [2, 7, 1024], [256, 256, 2]])
    } else { [c.rng.usize(1, 4), c.rng.usize(1, 4), c.rng.usize(1, 5)] };
    let size = dims.iter().product::<usize>();
    c.desc(format!("banks of {:?}", dims));
    let mut est = EstimatorsWithIndexer::new(Indexer3::new(dims.to_vec()));
    let mut est_model = vec![DeceleratingEstimator::new(); size];
    let make = || Mixer3::new(10, MixerInitializationMode::DominantFirst);
    let mut mix = MixersWithIndexer::new(make, Indexer3::new(dims.to_vec()));
    let mut mix_model: Vec<Mixer3> = (0..size).map(|_| make()).collect();
    let steps = c.rng.usize(10, 400);
    // in a large bank, keep returning to some cells
    let spots: Vec<[usize; 3]> = (0..1 + c.rng.usize(0, 5)).map(|_| [0, 1, 2].map(|k| if c.rng.chance(0.3) { dims[k] - 1 } else { c.rng.usize(0, dims[k] - 1) })).collect();
    let limit = *c.rng.pick(&[100u16, 300, 1000]);
    for step in 0..steps {
        let at = if size > 100 && c.rng.chance(0.9) { *c.rng.pick(&spots) } else { [0, 1, 2].map(|k| c.rng.below(dims[k] as u64) as usize) };
        let cell = row_major(&dims, &at);
        let bit = Bit::from(c.rng.chance(0.2 + 0.6 * (cell as f64 / size as f64)));
        let got = c.guarded("estimator bank", || est.predict(luts, |i| coords(i, at)));
        let sq = est_model[cell].prediction();
        let want = (sq, luts.stretch_lut().stretch(sq));
        ensure!(c, got == want, "step {}: estimator bank {:?} at {:?} predicts {:?}, its own history gives {:?}", step, dims, at, got, want);
        c.guarded("estimator bank", || est.update(bit, luts));
        est_model[cell].update(bit, luts.d_estimator_rates());
        let st = [0, 1, 2].map(|_| c.rng.range(-(8 << 21), 8 << 21) as i32);
        // first coordinates may be given ahead, as the chain does
        let ahead = c.rng.usize(0, 2);
        let got = c.guarded("mixer bank", || {
            mix.pre_predict(|i| { for k in 0..ahead { i.with_sub_index(at[k]); } i });
            mix.predict(|i| { for k in ahead..3 { i.with_sub_index(at[k]); } i }, |m| inputs(m, luts, &st), luts)
        });
        inputs(&mut mix_model[cell], luts, &st);
        let want = mix_model[cell].mix_all(luts.squash_lut());
        ensure!(c, got == want, "step {}: mixer bank {:?} at {:?} gives {:?}, its own history gives {:?}", step, dims, at, got, want);
        let seen = c.guarded("mixer bank", || {
            let w: Vec<i32> = (0..3).map(|k| mix.current_mixer().weight(k).raw()).collect();
            w
        });
        ensure!(c, (0..3).all(|k| mix_model[cell].weight(k).raw() == seen[k]), "step {}: the current mixer is not the one addressed", step);
        let back = c.guarded("mixer bank", || mix.update(bit, limit, luts));
        ensure!(c, back == want, "step {}: update returned {:?} instead of the paired result {:?}", step, back, want);
        mix_model[cell].update_and_reset(bit, want.0, limit, luts.d_estimator_rates());
        c.count("bank steps", 1);
    }
    c.sig(steps as u64);
    c.sig(size as u64);
    c.sig(c.index);
    c.nontrivial();
}

fn main() {
    vh::check("C17", "exploration",
        "case = shape (or bank history); all coordinates of the shape are mapped and compared with row-major positions, or illegal coordinates are offered after legal use; distinct by shape",
        |r| {
            let max = [4096usize, 24, 8, 5, 4, 3];
            let mut shapes: Vec<Vec<usize>> = vec![];
            for n in 1..=6usize {
                let m = max[n - 1];
                let total = m.pow(n as u32);
                let stride = if n == 1 { 13 } else { 1 };
                for s in (0..total).step_by(stride) {
                    let mut x = s;
                    shapes.push((0..n).map(|_| { let d = x % m + 1; x /= m; d }).collect());
                }
            }
            let s = &shapes;
            r.cases("small-shapes", shapes.len() as u64, |c| {
                let d = &s[c.index as usize];
                c.desc(format!("{:?}", d));
                d.iter().for_each(|&x| c.sig(x as u64));
                by_n(c, d, 0);
                by_n(c, d, 1);
                if d.iter().product::<usize>() > 1 {
                    c.nontrivial();
                }
            });
            r.exhaustive("every coordinate of every shape with sides up to 24 (2 dimensions), 8, 5, 4, 3 (6 dimensions)");
            let n = r.n(12_000, 300_000);
            r.cases("random-shapes", n, |c| {
                let n = c.rng.usize(1, 6);
                let d: Vec<usize> = loop {
                    let d: Vec<usize> = (0..n).map(|_| c.rng.log_uniform(300) as usize).collect();
                    if d.iter().product::<usize>() <= 40_000 { break d; }
                };
                c.desc(format!("{:?}", d));
                d.iter().for_each(|&x| c.sig(x as u64));
                by_n(c, &d, 0);
                by_n(c, &d, 1);
                c.nontrivial();
            });
            let n = r.n(20_000, 500_000);
            r.cases("huge-shapes", n, |c| {
                // only single coordinates are sampled; sizes near the limit of usize
                let n = c.rng.usize(1, 6);
                let d: Vec<usize> = (0..n).map(|_| { let top = u64::MAX >> c.rng.below(60); c.rng.log_uniform(top) as usize }).collect();
                c.desc(format!("{:?}", d));
                d.iter().for_each(|&x| c.sig(x as u64));
                let size = d.iter().try_fold(1usize, |a, &x| a.checked_mul(x));
                macro_rules! go { ($t:ty) => {{
                    let mut i = <$t>::new(d.clone());
                    match size {
                        None => ensure!(c, rejects(|| i.get_array_size()), "{:?}: overflowing size accepted", d),
                        Some(s) => {
                            ensure!(c, i.get_array_size() == s, "{:?}: size {}", d, i.get_array_size());
                            for _ in 0..4 {
                                let at: Vec<usize> = d.iter().map(|&x| if c.rng.chance(0.3) { x - 1 } else { c.rng.below(x as u64) as usize }).collect();
                                let got = c.guarded("indexing", || index(&mut i, &at));
                                ensure!(c, got == row_major(&d, &at), "{:?} at {:?}: index {}", d, at, got);
                                c.count("coordinates mapped", 1);
                            }
                        }
                    }
                }}}
                match n { 1 => go!(Indexer1), 2 => go!(Indexer2), 3 => go!(Indexer3), 4 => go!(Indexer4), 5 => go!(Indexer5), _ => go!(Indexer6) }
                if size.is_some() {
                    by_n(c, &d, 1);
                }
                c.nontrivial();
            });
            r.once("empty-shapes", |c| {
                let mut i = Indexer2::new(vec![3, 0]);
                ensure!(c, i.get_array_size() == 0, "a shape with an empty side has size {}", i.get_array_size());
                i.with_sub_index(2);
                ensure!(c, rejects(|| i.with_sub_index(0)), "coordinate 0 accepted in an empty dimension");
                c.count("refusals observed", 1);
                c.nontrivial();
            });
            let luts = LookUpTables::new();
            let l = &luts;
            let n = r.n(6_000, 120_000);
            r.cases("banks", n, |c| banks(c, l));
            r.require("coordinates mapped", 500_000);
            r.require("refusals observed", 50_000);
            r.require("bank steps", 10_000);
        });
}
