//! C02: coded length never exceeds (nor undercuts) the ideal code length by
//! more than the bound that follows from 31-bit range arithmetic.
#[path = "../dx/coder.rs"]
mod coder;
use coder::*;
use vh::{ensure, Case};

fn bounds(v: &[Ev]) -> (f64, f64, f64) {
    let (mut ideal, mut lo, mut hi) = (0f64, 0f64, 0f64);
    let t = TOP as f64;
    for ev in v {
        match ev.clamped() {
            Ev::Bit(p, false) => {
                let cost = -(p as f64 / t).log2();
                ideal += cost;
                lo += cost;
                // floor(range*p) loses less than one unit of at least p units
                hi += cost + (1.0 / p as f64).ln_1p() / std::f64::consts::LN_2;
            }
            Ev::Bit(p, true) => {
                let q = (TOP - p) as f64;
                let cost = -(q / t).log2();
                ideal += cost;
                lo += (cost - (1.0 / q).ln_1p() / std::f64::consts::LN_2).max(0.0);
                hi += cost;
            }
            Ev::Rare(true) => {
                ideal += 23.0;
                lo += 22.9;
                hi += 31.0;
            }
            Ev::Rare(false) => {
                hi += 1.5 / t;
            }
        }
    }
    (ideal, lo, hi)
}

fn measure(c: &mut Case, v: &[Ev]) {
    let mut bytes = vec![];
    encode(c, v, &mut bytes, None);
    let (ideal, lo, hi) = bounds(v);
    let bits = bytes.len() as f64 * 8.0;
    let eps = 1e-9 * (1.0 + ideal);
    ensure!(c, bits <= hi + 40.0 + eps,
            "{} events with ideal cost {:.3} bits were coded in {} bits, bound {:.3}", v.len(), ideal, bits, hi + 40.0);
    ensure!(c, bits + 32.0 + eps >= lo,
            "{} events with ideal cost {:.3} bits were coded in only {} bits", v.len(), ideal, bits);
    c.max("overhead above ideal (bits)", bits - ideal);
    c.count("events coded", v.len() as u64);
    c.count("bits produced", bits as u64);
    c.sig_bytes(&bytes);
    if v.len() > 8 {
        c.nontrivial();
    }
}

fn main() {
    vh::check("C02", "exploration",
        "case = script of coded events; the real encoder's output length is compared with a bound derived from the exact ideal cost; non-trivial when more than 8 events; distinct by coded bytes",
        |r| {
            let n = r.n(60_000, 1_500_000);
            r.cases("scripts", n, |c| {
                let (d, v) = script(&mut c.rng, 4000);
                c.desc(d);
                measure(c, &v);
            });
            r.cases("carry-boundaries", n, |c| {
                let (d, v) = boundary_script(&mut c.rng, 1500);
                c.desc(d);
                measure(c, &v);
            });
            let n = r.n(200, 3000);
            r.cases("long-skewed", n, |c| {
                // long, extremely predictable streams: per-event loss adds up here
                let p = *c.rng.pick(&[1u32, 2, 5, 100, 40_000, TOP / 3, TOP / 2]);
                let flip = c.rng.bool();
                let n = c.rng.usize(100_000, 2_000_000);
                let surprise = *c.rng.pick(&[0.0, 1e-5, 1e-3]);
                c.desc(format!("{} bits at probability {}/2^23 of the rarer value", n, p));
                let v: Vec<Ev> = (0..n).map(|_| {
                    let rarer = c.rng.chance(surprise);
                    if flip { Ev::Bit(p, !rarer) } else { Ev::Bit(TOP - p, rarer) }
                }).collect();
                measure(c, &v);
            });
            r.assume("the bound charges each 0 bit log2(1+1/p) and each 1 bit -log2(1+1/q) (p,q in 2^-23 units) plus 40 bits per stream, which any 31-bit range coder with floor division meets");
            r.require("events coded", 1_000_000);
        });
}
