//! C13: coding with predicted probabilities is lossless, causal, never fails.
#[path = "../dx/pred.rs"]
mod pred;
use demixer::coding::decoder::Decoder;
use demixer::coding::encoder::Encoder;
use demixer::bit::Bit;
use demixer::fixed_point::FixedPoint;
use demixer::lut::LookUpTables;
use pred::*;
use vh::{data, ensure, hash_bytes, Case, Rng, H0};

struct CountingReader<'a> {
    data: &'a [u8],
    used: usize,
}
impl<'a> std::io::Read for CountingReader<'a> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        let n = buf.len().min(self.data.len() - self.used);
        buf[..n].copy_from_slice(&self.data[self.used..self.used + n]);
        self.used += n;
        Ok(n)
    }
}

fn setup(r: &mut Rng, len: usize) -> Setup {
    match r.below(10) {
        0 => Setup::Default,
        1 => Setup::Window(r.usize(1, 4), r.usize(1, 20)),
        2 | 3 => Setup::Window(r.usize(2, 64), r.usize(1, 20)),
        4 => Setup::Window(len.max(1) + r.usize(0, 2), r.usize(1, 20)),
        5 => Setup::Window((len / 2).max(2) + r.usize(0, 2), 20),
        _ => Setup::Window(1 + r.log_uniform(2 * len as u64 + 8) as usize, r.usize(1, 20)),
    }
}

fn round_trip(c: &mut Case, v: &[u8], s: Setup, luts: &LookUpTables) {
    let mut coded = vec![];
    let mut probs: Vec<u32> = Vec::with_capacity(v.len() * 8);
    let mut cost = 0.0;
    {
        let mut e = Encoder::new(&mut coded);
        let mut p = c.guarded("creating the predictor", || make(s, luts));
        drive(c, &mut p, v, |_, _, prob, bit| {
            probs.push(prob.raw());
            cost += bit_cost(prob.raw(), bit);
            c.guarded("encoding", || e.encode_bit(prob, Bit::from(bit)));
        });
        c.guarded("finishing", || drop(e));
    }
    ensure!(c, (coded.len() as f64) * 8.0 <= cost * 1.0001 + 64.0 + v.len() as f64 * 0.001,
            "{} bytes with a cost of {:.1} bits were coded in {} bytes", v.len(), cost, coded.len());
    // the decoder's side: only decoded bits, other tables, other predictor
    let own = LookUpTables::new();
    let mut tail = CountingReader { data: &coded, used: 0 };
    let mut k = 0;
    {
        let mut p = c.guarded("creating the predictor", || make(s, &own));
        let mut d = c.guarded("starting to decode", || Decoder::new(&mut tail));
        for (pos, &b) in v.iter().enumerate() {
            let mut x = 0u8;
            for left in (0..8).rev() {
                let prob = c.guarded("predicting (decoder)", || {
                    if left == 7 { p.start_new_byte(); }
                    p.predict()
                });
                ensure!(c, prob.raw() == probs[k], "byte {} bit {}: coded with {}/2^23, decoded with {}/2^23", pos, left, probs[k], prob.raw());
                k += 1;
                let bit = c.guarded("decoding", || d.decode_bit(prob));
                c.guarded("updating (decoder)", || p.update(bit));
                x |= bit.to_u8() << left;
            }
            ensure!(c, x == b, "byte {} is {:02x}, decoded as {:02x}", pos, b, x);
        }
    }
    ensure!(c, tail.used == coded.len(), "{} bytes written, {} read back", coded.len(), tail.used);
    c.count("bytes round-tripped", v.len() as u64);
    c.count("coded bytes", coded.len() as u64);
    if let Setup::Window(w, _) = s {
        if v.len() > w {
            c.count("bytes coded while sliding", (v.len() - w) as u64);
        }
    }
    for p in probs.iter().step_by(7) {
        c.seen("probabilities used", *p as u64);
    }
    // causality: the same beginning, then something else
    if v.len() > 1 && v.len() < 9_000_000 && c.rng.chance(0.4) {
        let cut = c.rng.usize(0, v.len() - 1);
        let mut other = v[..(cut + 1 + c.rng.usize(0, 3)).min(v.len())].to_vec();
        let bit_at = c.rng.below(8) as u32;
        other[cut] ^= 1 << bit_at;
        for x in other[cut + 1..].iter_mut() {
            *x = c.rng.u8();
        }
        let mut p = make(s, luts);
        let mut k = 0;
        drive(c, &mut p, &other, |pos, left, prob, _| {
            // up to the bit that differs, included
            if pos < cut || (pos == cut && left >= bit_at) {
                if prob.raw() != probs[k] {
                    c.fail(format!("byte {} bit {}: {}/2^23 predicted, {}/2^23 when only later input differs", pos, left, probs[k], prob.raw()));
                }
            }
            k += 1;
        });
        c.count("predictions compared with a diverging twin", cut as u64 * 8);
    }
}

/// Very long input: the decoder gets the probabilities that the encoder used.
fn coded_once(c: &mut Case, v: &[u8], luts: &LookUpTables) {
    let mut coded = vec![];
    let mut probs = Vec::with_capacity(v.len() * 8);
    {
        let mut e = Encoder::new(&mut coded);
        let mut p = c.guarded("creating the predictor", || make(Setup::Default, luts));
        drive(c, &mut p, v, |_, _, prob, bit| {
            probs.push(prob);
            c.guarded("encoding", || e.encode_bit(prob, Bit::from(bit)));
        });
        c.guarded("finishing", || drop(e));
    }
    let mut tail = CountingReader { data: &coded, used: 0 };
    {
        let mut d = c.guarded("starting to decode", || Decoder::new(&mut tail));
        for (i, p) in probs.iter().enumerate() {
            let bit = c.guarded("decoding", || d.decode_bit(*p));
            ensure!(c, bit.is_1() == ((v[i / 8] >> (7 - i % 8)) & 1 == 1), "bit {} of byte {} is decoded wrong", 7 - i % 8, i / 8);
        }
    }
    ensure!(c, tail.used == coded.len(), "{} bytes written, {} read back", coded.len(), tail.used);
}

fn main() {
    vh::check("C13", "exploration",
        "case = input, window and order; the input is coded by the real predictor and coder and decoded by an independent pair; non-trivial when at least 16 bytes; distinct by input and setup",
        |r| {
            let luts = LookUpTables::new();
            let l = &luts;
            // first in the list so that it overlaps with everything else
            let big = if r.scaled() { 0 } else { r.n(1, 3) };
            let n = r.n(1_100, 20_000);
            r.cases("inputs", n, |c| {
                if c.index < big {
                    // longer than the default window, repeats all over it
                    let len = 10_000_000 + 50_000;
                    let filler: Vec<u8> = (0..len).map(|i| if c.index < 2 { c.rng.u8() & 0x7f } else { (i / 4_000_000 * 8) as u8 | c.rng.u8() & 3 }).collect();
                    let (k, v) = data::distances_in(&mut c.rng, filler);
                    c.desc(format!("default window exceeded, {} repeats at marked distances, {} bytes", k, v.len()));
                    if c.thorough { round_trip(c, &v, Setup::Default, l); } else { coded_once(c, &v, l); }
                    c.count("bytes coded beyond the default window", v.len() as u64 - 10_000_000);
                    c.sig_bytes(&v[..1000]);
                    c.nontrivial();
                    return;
                }
                let max = if c.index % 8 == 0 { 40_000 } else { 6_000 };
                let len = c.rng.log_uniform(max) as usize - 1;
                let (k, v) = if c.rng.chance(0.25) { data::hostile(&mut c.rng, len) } else { data::any(len, &mut c.rng) };
                let s = setup(&mut c.rng, v.len());
                c.desc(format!("{} {} bytes, {:?}: {}", k, v.len(), s, data::hex(&v)));
                c.sig(hash_bytes(H0, format!("{:?}", s).as_bytes()));
                c.sig_bytes(&v);
                if v.len() >= 16 {
                    c.nontrivial();
                }
                round_trip(c, &v, s, l);
            });
            let n = r.n(8, 100);
            r.cases("far-repeats", n, |c| {
                // tokens that come back at exact distances
                let len = match c.index { 0 => 200_000, 1 if c.thorough => 1_100_000, _ => 1_000 + c.rng.log_uniform(if c.thorough { 400_000 } else { 80_000 }) as usize };
                let (k, v) = data::distances(&mut c.rng, len);
                let s = match c.rng.below(3) { 0 => Setup::Window(len / 2 + c.rng.usize(0, len / 2), 20), _ => Setup::Default };
                let s = if c.index < 2 { Setup::Default } else { s };
                c.desc(format!("{} repeats at marked distances, {} bytes, {:?}", k, v.len(), s));
                c.sig_bytes(&v);
                c.nontrivial();
                round_trip(c, &v, s, l);
                c.count("repeats at marked distances", k as u64);
            });
            let n = r.n(64, 1_200);
            r.cases("long-hostile", n, |c| {
                let (k, v) = data::hostile(&mut c.rng, if c.thorough { 400_000 } else { 60_000 });
                let s = match c.rng.below(3) { 0 => Setup::Default, 1 => Setup::Window(c.rng.usize(1_000, 20_000), 20), _ => Setup::Window(c.rng.usize(100, 3_000), c.rng.usize(1, 20)) };
                c.desc(format!("{} {} bytes, {:?}", k, v.len(), s));
                c.sig(hash_bytes(H0, format!("{:?}", s).as_bytes()));
                c.sig_bytes(&v);
                c.nontrivial();
                round_trip(c, &v, s, l);
            });
            let n = r.n(600, 20_000);
            r.cases("tiny", n, |c| {
                // every byte value as the whole input, then short ones over tiny windows
                let v: Vec<u8> = if c.index < 256 { vec![c.index as u8] } else {
                    let len = c.rng.usize(0, 24);
                    let a = *c.rng.pick(&[1u8, 3, 255]);
                    (0..len).map(|_| c.rng.u8() & a).collect()
                };
                let s = Setup::Window(c.rng.usize(1, 8), c.rng.usize(0, 20));
                c.desc(format!("{:?}: {}", s, data::hex(&v)));
                c.sig(hash_bytes(H0, format!("{:?}", s).as_bytes()));
                c.sig_bytes(&v);
                if v.len() >= 16 {
                    c.nontrivial();
                }
                round_trip(c, &v, s, l);
            });
            r.assume("small windows are reached through a constructor that exists only under cfg(demixer_verif) and differs from Predictor::new only in the window size and order of its history source");
            r.require("bytes round-tripped", 1_000_000);
            r.require("repeats at marked distances", 100);
            r.require("bytes coded while sliding", 100_000);
            r.require("predictions compared with a diverging twin", 100_000);
            r.require("bytes coded beyond the default window", 50_000);
        });
}
