//! Event scripts for the range coder, shared by C01 and C02.
use demixer::bit::Bit;
use demixer::coding::decoder::Decoder;
use demixer::coding::encoder::Encoder;
use demixer::coding::FinalProbability;
use demixer::fixed_point::FixedPoint;
use std::io::{self, Read, Write};
use vh::{Case, Rng};

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Ev {
    Bit(u32, bool),
    Rare(bool),
}

impl Ev {
    /// 0 and 1 are coded as the nearest probability in between
    pub fn clamped(self) -> Ev {
        match self {
            Ev::Bit(p, b) => Ev::Bit(p.clamp(1, TOP - 1), b),
            e => e,
        }
    }
}

pub const TOP: u32 = 1 << 23;

pub fn prob(raw: u32) -> FinalProbability {
    FinalProbability::new(raw, 23)
}

fn raw_prob(r: &mut Rng, style: u64) -> u32 {
    match style {
        0 => 1 + r.below(TOP as u64 - 1) as u32,
        1 => *r.pick(&[0, 1, 2, 3, TOP, TOP - 1, TOP - 2, TOP - 3, TOP / 2, TOP / 2 + 1, TOP / 2 - 1]),
        2 => r.log_uniform(TOP as u64 - 1) as u32,
        3 => TOP - r.log_uniform(TOP as u64 - 1) as u32,
        4 => (TOP as f64 * (0.5 + 0.1 * (r.f64() - 0.5))) as u32,
        5 => TOP - 1,
        6 => 1,
        _ => *r.pick(&[TOP / 256, TOP / 65536, TOP - TOP / 256, TOP / 2]),
    }
}

/// (probabilities, values) in one of many statistical regimes
pub fn script(r: &mut Rng, max_len: u64) -> (String, Vec<Ev>) {
    let n = if r.chance(0.05) { r.below(5) } else { r.log_uniform(max_len) };
    let style = r.below(9);
    let agree = *r.pick(&[0.0, 0.02, 0.5, 0.9, 1.0, -1.0, -2.0]);
    let rare_rate = *r.pick(&[0.0, 0.0, 0.01, 0.3, 1.0]);
    let rare_true = *r.pick(&[0.0, 0.001, 0.5, 1.0]);
    let mut v = vec![];
    let mut adaptive = TOP / 2;
    for i in 0..n {
        let st = if style == 8 { r.below(8) } else { style };
        if rare_rate > 0.0 && r.chance(rare_rate) {
            v.push(Ev::Rare(r.chance(rare_true)));
            continue;
        }
        let mut p = raw_prob(r, st);
        let one = if agree == -1.0 {
            // distributed as predicted
            r.f64() * TOP as f64 >= p as f64
        } else if agree == -2.0 {
            p = adaptive.clamp(1, TOP - 1);
            let b = (i / 7) % 3 == 0;
            if b { adaptive -= adaptive >> 4 } else { adaptive += (TOP - adaptive) >> 4 }
            b
        } else {
            let likely_one = p < TOP / 2;
            if r.chance(agree) { likely_one } else { !likely_one }
        };
        v.push(Ev::Bit(p, one));
    }
    (format!("{} events style={} agree={} rare={}/{}", v.len(), style, agree, rare_rate, rare_true), v)
}

/// Steers the coder along a boundary: the real decoder is run on a target byte
/// string with long 00/ff runs, the decisions it makes are the script.  The
/// interval then straddles a carry point for as long as the run lasts.
pub fn boundary_script(r: &mut Rng, max_len: u64) -> (String, Vec<Ev>) {
    let n = 1 + r.log_uniform(max_len);
    steered(r, n as usize, 40)
}

/// the same with one run of a chosen length
pub fn long_run_script(r: &mut Rng, run: usize) -> (String, Vec<Ev>) {
    steered(r, 9 * run, run)
}

/// One run of millions of 00 or ff bytes, steered by a copy of the range
/// arithmetic: every other event narrows the interval around the target from
/// the other side, so that a few events are enough for each three bytes.
/// Events, one at a time, that keep the coded interval around a run of one
/// byte value: nothing is stored, so the run can have any length.
#[derive(Clone)]
pub struct HugeRun {
    run: u64,
    run_byte: u8,
    head: u8,
    at: u64,
    tail: u64,
    high: i64,
    value: i64,
    range: i64,
    below: bool,
    r: Rng,
}

impl HugeRun {
    pub fn new(r: &mut Rng, run: u64) -> HugeRun {
        let run_byte = *r.pick(&[0u8, 255]);
        let mut h = HugeRun { run, run_byte, head: 1 + r.below(254) as u8, at: 0, tail: r.u64(), high: 0, value: 0, range: 0x7fff_ffff, below: true, r: r.clone() };
        r.u64();
        for _ in 0..4 {
            h.value = (h.value << 8) + h.byte();
        }
        h
    }
    pub fn describe(&self) -> String {
        format!("{} bytes {:#x}, then random", self.run, self.run_byte)
    }
    fn byte(&mut self) -> i64 {
        let b = if self.at == 0 { 0x35 } else if self.at == 1 { self.head } else if self.at < self.run + 2 { self.run_byte } else {
            vh::splitmix(&mut self.tail) as u8
        };
        self.at += 1;
        let byte = (b as i64 >> 1) + (self.high << 7);
        self.high = b as i64 & 1;
        byte
    }
}

impl Iterator for HugeRun {
    type Item = Ev;
    fn next(&mut self) -> Option<Ev> {
        let mut consumed = 0;
        while self.range < 0x80_0000 {
            self.value = (self.value << 8) + self.byte();
            self.range <<= 8;
            consumed = self.at;
        }
        if consumed > self.run + 64 {
            return None;
        }
        let spread = 1 + self.r.below(4) as i64;
        let p = (self.value << 23) / self.range;
        let p = if self.below { p - spread } else { p + 1 + spread };
        self.below = !self.below;
        let p = p.clamp(1, TOP as i64 - 1);
        let helper = (self.range * p) >> 23;
        let bit = self.value >= helper;
        if bit {
            self.range -= helper;
            self.value -= helper;
        } else {
            self.range = helper;
        }
        Some(Ev::Bit(p as u32, bit))
    }
}

pub fn huge_run_script(r: &mut Rng, run: usize) -> (String, Vec<Ev>) {
    let h = HugeRun::new(r, run as u64);
    let d = h.describe();
    let v: Vec<Ev> = h.collect();
    (format!("{}: {} events", d, v.len()), v)
}

/// What was written, as runs of equal bytes.
#[derive(Default)]
pub struct Runs(pub Vec<(u8, u64)>);

impl Write for Runs {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        for &b in buf {
            match self.0.last_mut() {
                Some(l) if l.0 == b => l.1 += 1,
                _ => self.0.push((b, 1)),
            }
        }
        Ok(buf.len())
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

pub struct RunsReader<'a> {
    pub runs: &'a [(u8, u64)],
    pub used: u64,
}

impl<'a> Read for RunsReader<'a> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        while let Some(&(b, n)) = self.runs.first() {
            if self.used < n && !buf.is_empty() {
                buf[0] = b;
                self.used += 1;
                return Ok(1);
            }
            if buf.is_empty() { return Ok(0); }
            self.runs = &self.runs[1..];
            self.used = 0;
        }
        Ok(0)
    }
}

fn steered(r: &mut Rng, n: usize, run: usize) -> (String, Vec<Ev>) {
    let long = run > 40;
    let style = if long { *r.pick(&[0, 4]) } else { *r.pick(&[0, 1, 2, 4, 7, 8]) };
    let mut target = vec![r.below(0xff) as u8];
    if long {
        let b = *r.pick(&[0u8, 255]);
        target.push(1 + r.below(254) as u8);
        target.extend(std::iter::repeat(b).take(run));
    }
    while target.len() < 2 * n + 64 {
        let run = r.log_uniform(40) as usize;
        let b = *r.pick(&[0u8, 0, 255, 255, 0x80, 0x7f, 1]);
        target.extend(std::iter::repeat(b).take(run));
        if r.chance(0.3) {
            target.push(r.u8());
        }
    }
    if target[0] == 0 && r.bool() {
        target[0] = 0x40;
    }
    if long { target.truncate(run + 200) }
    let enough = target.len();
    let mut src = io::Cursor::new(target).chain(io::repeat(0));
    let mut v = vec![];
    {
        let mut d = Decoder::new(&mut src);
        let rare = *r.pick(&[0.0, 0.0, 0.1]);
        for _ in 0..if long { 14 * enough } else { n } {
            if r.chance(rare) {
                v.push(Ev::Rare(d.decode_rare_event()));
            } else {
                let st = if style == 8 { r.below(8) } else { style };
                let p = raw_prob(r, st);
                v.push(Ev::Bit(p, d.decode_bit(prob(p)).is_1()));
            }
        }
    }
    // leave the boundary on one side or the other at the end
    let tail = r.below(4);
    for _ in 0..tail {
        let p = raw_prob(r, 0);
        v.push(Ev::Bit(p, r.bool()));
    }
    (format!("boundary-steered {} events style={}", v.len(), style), v)
}

/// writes a few bytes at a time and is interrupted often
pub struct ChoppyWriter<'a> {
    pub out: &'a mut Vec<u8>,
    pub limit: usize,
    pub rng: Option<Rng>,
}

impl<'a> Write for ChoppyWriter<'a> {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        if self.out.len() >= self.limit {
            return Err(io::Error::new(io::ErrorKind::Other, "more bytes than the events can need"));
        }
        if let Some(r) = self.rng.as_mut() {
            if r.chance(0.3) {
                return Err(io::Error::new(io::ErrorKind::Interrupted, "interrupted"));
            }
            let n = if buf.len() > 1 { r.usize(1, buf.len()) } else { buf.len() };
            self.out.extend_from_slice(&buf[..n]);
            return Ok(n);
        }
        self.out.extend_from_slice(buf);
        Ok(buf.len())
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

pub struct ChoppyReader<'a> {
    pub data: &'a [u8],
    pub pos: usize,
    pub starved: u64,
    pub rng: Option<Rng>,
}

impl<'a> Read for ChoppyReader<'a> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if let Some(r) = self.rng.as_mut() {
            if r.chance(0.3) {
                return Err(io::Error::new(io::ErrorKind::Interrupted, "interrupted"));
            }
        }
        if self.pos == self.data.len() {
            if !buf.is_empty() {
                self.starved += 1;
            }
            return Ok(0);
        }
        let mut n = buf.len().min(self.data.len() - self.pos);
        if let Some(r) = self.rng.as_mut() {
            if n > 1 {
                n = r.usize(1, n);
            }
        }
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

pub fn encode(c: &Case, v: &[Ev], out: &mut Vec<u8>, rng: Option<Rng>) {
    // no event may move the 31-bit range by more than four bytes
    let limit = out.len() + 64 + 4 * v.len();
    c.guarded("encoding", || {
        let mut w = ChoppyWriter { out, rng, limit };
        let mut e = Encoder::new(&mut w);
        for ev in v {
            match *ev {
                Ev::Bit(p, b) => e.encode_bit(prob(p), Bit::from(b)),
                Ev::Rare(b) => e.encode_rare_event(b),
            }
        }
    })
}

pub fn decode_all(c: &Case, v: &[Ev], r: &mut ChoppyReader) {
    let mut bad: Option<String> = None;
    c.guarded("decoding", || {
        let mut d = Decoder::new(r);
        for (i, ev) in v.iter().enumerate() {
            match *ev {
                Ev::Bit(p, b) => {
                    let got = d.decode_bit(prob(p));
                    if got.is_1() != b || got.is_0() == b {
                        bad = Some(format!("event {} of {}: bit {} with probability raw {} decoded as {:?}", i, v.len(), b as u8, p, got));
                        return;
                    }
                }
                Ev::Rare(b) => {
                    let got = d.decode_rare_event();
                    if got != b {
                        bad = Some(format!("event {} of {}: rare event flag {} decoded as {}", i, v.len(), b, got));
                        return;
                    }
                }
            }
        }
    });
    if let Some(m) = bad {
        c.fail(m);
    }
}
