//! C14: predictable data becomes cheap, unpredictable data is not inflated.
#[path = "../dx/pred.rs"]
mod pred;
use demixer::fixed_point::FixedPoint;
use demixer::lut::LookUpTables;
use pred::*;
use vh::{ensure, hash_bytes, Case, Rng, H0};

/// cost in bits of every byte
fn costs(c: &mut Case, s: Setup, v: &[u8], luts: &LookUpTables) -> Vec<f32> {
    let mut p = c.guarded("creating the predictor", || make(s, luts));
    let mut out = vec![0f32; v.len()];
    drive(c, &mut p, v, |pos, _, prob, bit| out[pos] += bit_cost(prob.raw(), bit) as f32);
    c.count("bytes costed", v.len() as u64);
    c.sig(hash_bytes(H0, format!("{:?}", s).as_bytes()));
    c.sig_bytes(&v[..v.len().min(4096)]);
    out
}

fn mean(v: &[f32]) -> f64 {
    v.iter().map(|&x| x as f64).sum::<f64>() / v.len().max(1) as f64
}

fn random(r: &mut Rng, n: usize) -> Vec<u8> {
    (0..n).map(|_| r.u8()).collect()
}

/// a block, a gap, the same block again; both random
fn repeat_at(c: &mut Case, s: Setup, block: usize, gap: usize, lead: usize, luts: &LookUpTables) {
    let mut v = random(&mut c.rng, lead);
    let b = random(&mut c.rng, block);
    v.extend_from_slice(&b);
    v.extend(random(&mut c.rng, gap));
    let second = v.len();
    v.extend_from_slice(&b);
    v.extend(random(&mut c.rng, 8));
    c.desc(format!("{} random bytes repeated at distance {} after {} bytes, {:?}", block, block + gap, lead, s));
    let k = costs(c, s, &v, luts);
    // the repeat is noticed within a few bytes and then followed cheaply
    let noticed = mean(&k[second + 16..second + block]);
    let early = mean(&k[second + 8..second + 16]);
    c.max("bits per byte of a repeat after 16 bytes", noticed);
    c.max("bits per byte of a repeat in bytes 8..16", early);
    c.max("bits per byte from the start of a repeat to its byte 16", mean(&k[second..second + 16]));
    ensure!(c, noticed <= 0.3,
            "the repeat costs {:.3} bits per byte after its first 16 bytes", noticed);
    ensure!(c, early <= 2.0,
            "the repeat still costs {:.3} bits per byte in its bytes 8 to 16", early);
    // and what preceded it was not inflated
    let before: f64 = k[..second].iter().map(|&x| x as f64).sum();
    ensure!(c, before <= 8.0 * second as f64 * 1.003 + 64.0, "{} random bytes cost {:.0} bits", second, before);
    c.count("repeats followed", 1);
    c.nontrivial();
}


/// one symbol of `alpha` dominates after each context of `order` symbols
fn markov(r: &mut Rng, order: usize, m: usize, q: f64, n: usize) -> (Vec<u8>, f64) {
    // returns the realized information content per byte of the second half
    let mut alpha: Vec<u8> = (0..=255).collect();
    for i in 0..m {
        let j = r.usize(i, 255);
        alpha.swap(i, j);
    }
    let mut table = std::collections::HashMap::new();
    let mut st = vec![0usize; order];
    let mut v = vec![];
    let (pm, po) = (1.0 - q + q / m as f64, q / m as f64);
    let mut ideal = 0.0;
    for i in 0..n {
        let main = *table.entry(st.clone()).or_insert_with(|| r.below(m as u64) as usize);
        let x = if r.chance(q) { r.below(m as u64) as usize } else { main };
        v.push(alpha[x]);
        if i >= n / 2 {
            ideal -= if x == main { pm } else { po }.log2();
        }
        if order > 0 {
            st.remove(0);
            st.push(x);
        }
    }
    (v, ideal / (n - n / 2) as f64)
}

fn order0(v: &[u8]) -> f64 {
    let mut n = [0f64; 256];
    v.iter().for_each(|&b| n[b as usize] += 1.0);
    n.iter().filter(|&&x| x > 0.0).map(|&x| -x / v.len() as f64 * (x / v.len() as f64).log2()).sum()
}

const BLOCKS: [usize; 7] = [64, 96, 128, 256, 512, 1024, 4096];

fn main() {
    vh::check("C14", "exploration",
        "case = generated source; the exact cost of every byte under the real predictor's probabilities is observed and judged against the entropy of the source; distinct by input and window",
        |r| {
            let luts = LookUpTables::new();
            let l = &luts;
            let far = r.n(1, 4);
            let n = r.n(160, 6_000);
            r.cases("repeats", n, |c| {
                if c.index < far {
                    // close to the far end of the default window
                    let block = 2_000;
                    let lead = c.rng.usize(0, 1_000);
                    let gap = [9_996_000, 5_000_000, 2_200_000, 9_000_000][c.index as usize];
                    repeat_at(c, Setup::Default, block, gap, lead, l);
                    c.count("repeats followed over millions of bytes", 1);
                    return;
                }
                let block = BLOCKS[c.index as usize % 7];
                let gap = c.rng.log_uniform(100_000) as usize - 1;
                let lead = c.rng.log_uniform(60_000) as usize - 1;
                repeat_at(c, Setup::Default, block, gap, lead, l);
            });
            let n = r.n(240, 8_000);
            r.cases("repeats-while-sliding", n, |c| {
                // window just large enough for the first occurrence, long since sliding
                let block = BLOCKS[c.index as usize % 5];
                let gap = c.rng.log_uniform(8_000) as usize - 1;
                let slack = if c.rng.bool() { 2 } else { 2 + c.rng.log_uniform(4_000) as usize };
                let w = 2 * block + gap + slack;
                let lead = w + c.rng.log_uniform(20_000) as usize;
                let order = c.rng.usize(6, 20);
                repeat_at(c, Setup::Window(w, order), block, gap, lead, l);
                c.count("repeats followed while sliding", 1);
            });
            let n = r.n(16, 300);
            r.cases("long-repeats", n, |c| {
                let block = c.rng.usize(20_000, 150_000);
                let gap = c.rng.log_uniform(30_000) as usize - 1;
                let lead = c.rng.log_uniform(1_000) as usize;
                let s = if c.rng.bool() { Setup::Default } else { Setup::Window(2 * block + gap + 10, 20) };
                repeat_at(c, s, block, gap, lead, l);
            });
            let n = r.n(120, 4_000);
            r.cases("incompressible", n, |c| {
                let n = c.rng.log_uniform(150_000) as usize;
                let v = random(&mut c.rng, n);
                let s = if c.rng.bool() { Setup::Default } else { Setup::Window(1 + c.rng.log_uniform(2 * n as u64) as usize, c.rng.usize(1, 20)) };
                c.desc(format!("{} random bytes, {:?}", n, s));
                let k = costs(c, s, &v, l);
                let total: f64 = k.iter().map(|&x| x as f64).sum();
                c.max("bits above 8 per byte on random data, relative", (total - 64.0).max(0.0) / 8.0 / n as f64 - 1.0);
                ensure!(c, total <= 8.0 * n as f64 * 1.003 + 64.0, "{} random bytes cost {:.0} bits, {:.2}% more than 8 per byte", n, total, (total / 8.0 / n as f64 - 1.0) * 100.0);
                // not too good to be true either: such data cannot be predicted
                ensure!(c, total >= 7.9 * n as f64 - 200.0, "{} random bytes cost only {:.0} bits", n, total);
                c.nontrivial();
            });
            let n = r.n(160, 6_000);
            r.cases("periodic", n, |c| {
                let p = c.rng.log_uniform(5_000) as usize;
                let base = random(&mut c.rng, p);
                let len = 6 * p + 400;
                let v: Vec<u8> = (0..len).map(|i| base[i % p]).collect();
                let s = if c.rng.bool() { Setup::Default } else { Setup::Window(2 * p + 100, 20) };
                c.desc(format!("period {} for {} bytes, {:?}", p, len, s));
                let k = costs(c, s, &v, l);
                let total: f64 = k.iter().map(|&x| x as f64).sum();
                c.max("bits beyond the first period", total - 8.0 * 1.003 * p as f64);
                c.max("bits per byte from period 5 on", mean(&k[5 * p + 30..]));
                ensure!(c, total <= 8.0 * 1.003 * p as f64 + 130.0, "period {}: {} bytes cost {:.0} bits", p, len, total);
                ensure!(c, mean(&k[5 * p + 30..]) <= 0.01, "period {}: still {:.4} bits per byte after five periods", p, mean(&k[5 * p + 30..]));
                c.nontrivial();
            });
            let n = r.n(24, 256);
            r.cases("constant", n, |c| {
                let n = c.rng.log_uniform(200_000) as usize;
                let b = if c.index < 2 { (c.index as u8).wrapping_neg() } else { c.rng.u8() };
                let s = if c.rng.bool() { Setup::Default } else { Setup::Window(1 + c.rng.log_uniform(5_000) as usize, c.rng.usize(1, 20)) };
                c.desc(format!("{} bytes {:02x}, {:?}", n, b, s));
                let k = costs(c, s, &vec![b; n], l);
                let total: f64 = k.iter().map(|&x| x as f64).sum();
                c.max("bits for a constant input", total);
                ensure!(c, total <= 120.0 + n as f64 * 1e-3, "{} equal bytes cost {:.1} bits", n, total);
                c.nontrivial();
            });
            let n = r.n(192, 5_000);
            r.cases("sources-with-memory", n, |c| {
                let order = (c.index % 4) as usize;
                let m = [2usize, 4, 8][(c.index / 4 % 3) as usize];
                let q = [0.01, 0.05, 0.2, 0.5][(c.index / 12 % 4) as usize];
                let n = if order == 3 { 40_000 } else { 20_000 };
                let (v, h) = markov(&mut c.rng, order, m, q, n);
                let s = if c.rng.chance(0.7) { Setup::Default } else { Setup::Window(n / 2, 20) };
                c.desc(format!("order-{} source over {} symbols, {} bytes, entropy {:.4}, {:?}", order, m, n, h, s));
                let k = costs(c, s, &v, l);
                let got = mean(&k[n / 2..]);
                c.max(["order 0: bits above entropy", "order 1: bits above entropy", "order 2: bits above entropy", "order 3: bits above entropy"][order], got - h);
                c.max(["order 0: cost over entropy", "order 1: cost over entropy", "order 2: cost over entropy", "order 3: cost over entropy"][order], got / h);
                let limit = h * 1.15 + if order < 3 { 0.1 } else { 0.2 };
                ensure!(c, got <= limit, "an order-{} source with {:.4} bits of information per byte costs {:.4}, limit {:.4}", order, h, got, limit);
                ensure!(c, got >= h * 0.97 - 0.01, "an order-{} source with {:.4} bits of information per byte costs only {:.4}", order, h, got);
                c.nontrivial();
            });
            let n = r.n(64, 2_000);
            r.cases("text-like", n, |c| {
                let kind = ["text", "blocks"][c.index as usize % 2];
                let n = 40_000;
                let v = vh::data::by_kind(kind, n, &mut c.rng);
                c.desc(format!("{} {} bytes: {}", kind, n, vh::data::hex(&v)));
                let k = costs(c, Setup::Default, &v, l);
                let h0 = order0(&v);
                let (first, second) = (mean(&k[..n / 8]), mean(&k[n / 2..]));
                c.max("text-like: cost over order-0 entropy", second / h0);
                ensure!(c, second <= 0.4 * h0, "{} data with an order-0 entropy of {:.3} bits still costs {:.3} bits per byte", kind, h0, second);
                ensure!(c, second <= 0.85 * first, "{} data does not get cheaper: {:.3} bits per byte at first, {:.3} later", kind, first, second);
                c.nontrivial();
            });
            r.assume("limits are those the shipped model meets with a margin; they are far below what a model that misses repeats, loses contexts or stops learning reaches");
            r.require("bytes costed", 5_000_000);
            r.require("repeats followed", 200);
            r.require("repeats followed while sliding", 100);
            r.require("repeats followed over millions of bytes", 1);
        });
}
