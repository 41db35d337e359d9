//! C01: coded event streams decode losslessly and consume exactly their bytes.
#[path = "../dx/coder.rs"]
mod coder;
use coder::*;
use demixer::bit::Bit;
use demixer::coding::{decoder::Decoder, encoder::Encoder};
use vh::{ensure, Case};

fn roundtrip(c: &mut Case, streams: &[Vec<Ev>], hostile_io: bool) {
    let mut bytes = vec![];
    let mut ends = vec![];
    for v in streams {
        let wr = if hostile_io { Some(c.rng.clone()) } else { None };
        let before = bytes.len();
        encode(c, v, &mut bytes, wr);
        ensure!(c, bytes.len() > before, "an encoded stream left no bytes");
        ends.push(bytes.len());
    }
    c.sig_bytes(&bytes);
    let mut longest_ff = 0usize;
    let mut run = 0usize;
    for &b in &bytes {
        run = if b == 0xff || b == 0 { run + 1 } else { 0 };
        longest_ff = longest_ff.max(run);
    }
    c.max("longest 00/ff byte run", longest_ff as f64);
    c.count("streams with a 00/ff run of 65536 bytes or more", (longest_ff >= 65_536) as u64);
    c.count("streams with a 00/ff run of 16777216 bytes or more", (longest_ff >= 1 << 24) as u64);
    let rr = if hostile_io { Some(c.rng.clone()) } else { None };
    let mut r = ChoppyReader { data: &bytes, pos: 0, starved: 0, rng: rr };
    for (k, v) in streams.iter().enumerate() {
        decode_all(c, v, &mut r);
        ensure!(c, r.pos == ends[k],
                "stream {} of {}: decoder stopped at byte {} but the encoder ended it at byte {}",
                k, streams.len(), r.pos, ends[k]);
        c.count("events decoded", v.len() as u64);
        c.count("rare events decoded", v.iter().filter(|e| matches!(e, Ev::Rare(_))).count() as u64);
    }
    ensure!(c, r.starved == 0, "decoder asked for bytes past the end of the stream");
    c.count("streams decoded", streams.len() as u64);
    c.count("bytes consumed", bytes.len() as u64);
    if streams.iter().any(|v| !v.is_empty()) {
        c.nontrivial();
    }
    // every byte is needed: a truncated stream is refused, not misread
    if streams.len() == 1 && bytes.len() <= 400 && c.rng.chance(0.3) {
        let cut = c.rng.usize(0, bytes.len() - 1);
        let v = &streams[0];
        let mut r = ChoppyReader { data: &bytes[..cut], pos: 0, starved: 0, rng: None };
        ensure!(c, vh::rejects(|| {
            use demixer::coding::decoder::Decoder;
            let mut d = Decoder::new(&mut r);
            for ev in v {
                match *ev {
                    Ev::Bit(p, _) => { d.decode_bit(prob(p)); }
                    Ev::Rare(_) => { d.decode_rare_event(); }
                }
            }
        }), "a stream of {} bytes truncated to {} was decoded without complaint", bytes.len(), cut);
        c.count("truncations refused", 1);
    }
}

fn endless(c: &mut Case) {
    let run = if c.index < 2 { 1u64 << 31 } else { 1 << 32 } + c.rng.range(2, 5000) as u64;
    let make = HugeRun::new(&mut c.rng, run);
    c.desc(make.describe());
    c.sig(make.clone().take(1_000_000).fold(run, |h, e| match e { Ev::Bit(p, b) => vh::mix(h, p as u64 * 2 + b as u64), _ => h }));
    let mut w = Runs::default();
    let mut events = 0u64;
    c.guarded("encoding", || {
        let mut e = Encoder::new(&mut w);
        for ev in make.clone() {
            if let Ev::Bit(p, b) = ev { e.encode_bit(prob(p), Bit::from(b)); }
            events += 1;
        }
    });
    let written: u64 = w.0.iter().map(|r| r.1).sum();
    let longest = w.0.iter().map(|r| r.1).max().unwrap_or(0);
    c.max("longest 00/ff byte run", longest as f64);
    ensure!(c, written >= run, "{} events need more than {} bytes, but {} were written", events, run, written);
    let mut r = RunsReader { runs: &w.0, used: 0 };
    let bad = c.guarded("decoding", || {
        let mut d = Decoder::new(&mut r);
        for (i, ev) in make.clone().enumerate() {
            if let Ev::Bit(p, b) = ev {
                if d.decode_bit(prob(p)).is_1() != b { return Some(i); }
            }
        }
        None
    });
    ensure!(c, bad.is_none(), "event {} of {} decoded wrongly", bad.unwrap(), events);
    let left = r.runs.iter().map(|x| x.1).sum::<u64>() - r.used;
    ensure!(c, left == 0, "the decoder left {} of {} bytes unread", left, written);
    c.count("streams with a 00/ff run of 2147483648 bytes or more", (longest >= 1 << 31) as u64);
    c.count("events decoded", events);
    c.nontrivial();
}

fn main() {
    vh::check("C01", "exploration",
        "case = 1..4 scripts of (probability, bit) / rare-event pairs coded to one byte stream by the real encoder and read back by the real decoder through monitored I/O; non-trivial when at least one event was coded; distinct by coded bytes",
        |r| {
            let n = r.n(60_000, 1_500_000);
            r.cases("scripts", n, |c| {
                let (d, v) = script(&mut c.rng, 4000);
                c.desc(d);
                roundtrip(c, &[v], false);
            });
            r.cases("carry-boundaries", n, |c| {
                let (d, v) = boundary_script(&mut c.rng, 1500);
                c.desc(d);
                roundtrip(c, &[v], false);
            });
            let n = r.n(15_000, 300_000);
            r.cases("concatenated-hostile-io", n, |c| {
                let k = c.rng.usize(1, 4);
                let mut s = vec![];
                let mut ds = String::new();
                for _ in 0..k {
                    let (d, v) = if c.rng.bool() { script(&mut c.rng, 600) } else { boundary_script(&mut c.rng, 300) };
                    ds.push_str(&d);
                    ds.push_str("; ");
                    s.push(v);
                }
                c.desc(ds);
                let hostile = c.rng.bool();
                roundtrip(c, &s, hostile);
            });
            let n = r.n(64, 800);
            r.cases("long", n, |c| {
                let (d, v) = script(&mut c.rng, 3_000_000);
                c.desc(d);
                roundtrip(c, &[v], false);
            });
            // carries that stay undecided over tens of thousands of bytes
            let n = r.n(32, 400);
            r.cases("long-carry-runs", n, |c| {
                let run = *c.rng.pick(&[33_000, 66_000, 66_000, 132_000]) + c.rng.usize(0, 3000);
                let (d, v) = long_run_script(&mut c.rng, run);
                c.desc(format!("{} bytes of one value: {}", run, d));
                roundtrip(c, &[v], false);
            });
            // and over millions, past 16 and 24 bit counters
            let n = r.n(6, 40);
            r.cases("huge-carry-runs", n, |c| {
                let run = [1 << 20, 1 << 24, 1 << 16, 1 << 22, 1 << 23, 1 << 24][c.index as usize % 6] + c.rng.usize(1, 5000);
                let (d, v) = huge_run_script(&mut c.rng, run);
                c.desc(d);
                roundtrip(c, &[v], false);
            });
            // and past the ends of 31 and 32 bit counters; nothing is stored
            let n = if r.profile == "checked" { r.n(1, 4) } else { r.n(0, 2) };
            r.cases("endless-carry-runs", n, endless);
            // every single-event and two-event stream over the edge probabilities
            r.once("edge-pairs", |c| {
                let ps = [0, 1, 2, TOP / 2, TOP - 2, TOP - 1, TOP];
                let mut evs = vec![Ev::Rare(false), Ev::Rare(true)];
                for p in ps { evs.push(Ev::Bit(p, false)); evs.push(Ev::Bit(p, true)); }
                c.desc("all sequences of length <= 4 over edge events");
                let n = evs.len();
                for len in 0..=4u32 {
                    for code in 0..n.pow(len) {
                        let mut x = code;
                        let v: Vec<Ev> = (0..len).map(|_| { let e = evs[x % n]; x /= n; e }).collect();
                        roundtrip(c, &[v], false);
                    }
                }
            });
            r.exhaustive("event sequences of length 0..4 over 16 edge events");
            r.require("events decoded", 1_000_000);
            r.require("streams with a 00/ff run of 16777216 bytes or more", 1);
            if r.profile == "checked" { r.require("streams with a 00/ff run of 2147483648 bytes or more", 1); }
            r.require("rare events decoded", 1000);
            r.require("streams with a 00/ff run of 65536 bytes or more", 10);
        });
}
