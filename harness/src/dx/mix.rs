//! One stepwise interface over every kind of stateful instance of the library.
use demixer::bit::Bit;
use demixer::coding::decoder::Decoder;
use demixer::coding::encoder::Encoder;
use demixer::coding::FinalProbability;
use demixer::estimators::cost::CostTracker;
use demixer::estimators::decelerating::DeceleratingEstimator;
use demixer::estimators::fixed_speed::FixedSpeedEstimator;
use demixer::fixed_point::types::{FractOnlyU32, StretchedProbD};
use demixer::fixed_point::FixedPoint;
use demixer::history::fat_map::FatMapHistorySource;
use demixer::history::naive::NaiveHistorySource;
use demixer::history::tree::node::CostTrackers;
use demixer::history::tree::TreeHistorySource;
use demixer::history::window::InputWindow;
use demixer::history::{CollectedContextStates, HistorySource};
use demixer::lut::LookUpTables;
use demixer::mixing::apm::AdaptiveProbabilityMap;
use demixer::mixing::mixer::*;
use demixer::predictor::Predictor;
use demixer::random::MersenneTwister;
use demixer::util::last_bytes::LastBytesCache;
use std::io::{Read, Write};
use std::sync::{Arc, Mutex};
use vh::{data, hash_bytes, mix, Rng, H0};

pub const KINDS: u64 = 11;
pub const NAMES: [&str; 11] = ["predictor", "tree", "map", "brute force", "mixer", "probability map",
    "estimators", "encoder", "decoder", "random generator", "window and recent bytes"];

pub trait Instance {
    /// one bit (or one operation); what it showed
    fn step(&mut self) -> u64;
    /// a call that has to be refused, if there is any
    fn abuse(&mut self) {}
    fn end(self: Box<Self>) -> u64 { 0 }
}

#[derive(Clone, Copy, Debug)]
pub struct Spec {
    pub kind: u64,
    pub seed: u64,
    pub steps: usize,
}

pub fn spec(r: &mut Rng, max: u64) -> Spec {
    let kind = r.below(KINDS);
    let max = match kind { 0 => max / 2, 3 => max.min(600), _ => max };
    Spec { kind, seed: r.u64(), steps: r.log_uniform(max) as usize }
}

pub fn make<'a>(s: Spec, luts: &'a LookUpTables) -> Box<dyn Instance + 'a> {
    let mut r = Rng::new(s.seed);
    let n = s.steps / 8 + 2;
    match s.kind {
        0 => {
            let p = if r.chance(0.02) { Predictor::new(luts) } else {
                let (w, o) = (1 + r.log_uniform(2 * n as u64) as usize, r.usize(0, 20));
                Predictor::with_window(w, o, luts)
            };
            Box::new(Pred { p, v: input(&mut r, n), k: 0 })
        }
        1 => {
            let (w, o) = (1 + r.log_uniform(2 * n as u64) as usize, r.usize(0, 40));
            source::<TreeHistorySource>(w, o, r, n, luts)
        }
        2 => { let o = r.usize(0, 40); source::<FatMapHistorySource>(n, o, r, n, luts) }
        3 => { let o = r.usize(0, 30); source::<NaiveHistorySource>(n, o, r, n, luts) }
        4 => {
            let mode = if r.bool() { MixerInitializationMode::DominantFirst } else { MixerInitializationMode::EqualSummingToOne };
            match r.below(6) {
                0 => train(Mixer1::new(10, mode), r, luts),
                1 => train(Mixer2::new(10, mode), r, luts),
                2 => train(Mixer3::new(10, mode), r, luts),
                3 => train(Mixer4::new(10, mode), r, luts),
                4 => train(Mixer5::new(10, mode), r, luts),
                _ => { let k = r.usize(1, 20); train(MixerN::new(k, 10, mode), r, luts) }
            }
        }
        5 => {
            let (bits, contexts) = (r.below(3) as u8, r.usize(1, 60));
            Box::new(Map { m: AdaptiveProbabilityMap::new(contexts, bits, luts.squash_lut()), bits, contexts, fixed: r.bool(), rate: r.range(1, 10) as u8, r, luts })
        }
        6 => Box::new(Estimators { d: (0..8).map(|_| DeceleratingEstimator::new()).collect(), f: (0..8).map(|_| FixedSpeedEstimator::new(1 << 15)).collect(),
            c: (0..8).map(|_| CostTracker::new(r.u64() as u16)).collect(), r, luts }),
        _ => make_free(s).unwrap(),
    }
}

/// the kinds that use no lookup tables
pub fn make_free(s: Spec) -> Option<Box<dyn Instance>> {
    let mut r = Rng::new(s.seed);
    let n = s.steps / 8 + 2;
    Some(match s.kind {
        7 => {
            let out = Arc::new(Mutex::new(vec![]));
            let w: &'static mut Shared = Box::leak(Box::new(Shared { bytes: out.clone(), at: 0 }));
            let w: *mut Shared = w;
            // the writer is given back when the stream has ended
            let e = Encoder::new(unsafe { &mut *w });
            Box::new(Enc { e: Some(e), w, out, r })
        }
        8 => {
            let mut bytes = vec![];
            {
                let mut e = Encoder::new(&mut bytes);
                let mut q = r.clone();
                for _ in 0..s.steps { event(&mut q, |p, b| match p { Some(p) => e.encode_bit(p, Bit::from(b)), None => e.encode_rare_event(b) }); }
            }
            let w: *mut Shared = Box::leak(Box::new(Shared { bytes: Arc::new(Mutex::new(bytes)), at: 0 }));
            let d = Decoder::new(unsafe { &mut *w });
            Box::new(Dec { d: Some(d), w, r })
        }
        9 => Box::new(Numbers { t: if r.bool() { MersenneTwister::new_by_scalar_seed(r.u64()) } else {
            let key: Vec<u64> = (0..1 + r.below(400)).map(|_| r.u64()).collect();
            MersenneTwister::new_by_vector_seed(&key)
        }, k: 0 }),
        10 => {
            let cap = 1 + r.log_uniform(n as u64) as usize;
            let shift = r.usize(0, cap - 1);
            Box::new(Recent { c: LastBytesCache::new(), w: InputWindow::new(cap, shift), cap, v: input(&mut r, n), k: 0 })
        }
        _ => return None,
    })
}

/// from creation to the end, alone
pub fn whole(s: Spec, luts: &LookUpTables) -> u64 {
    let mut i = make(s, luts);
    let mut h = H0;
    for _ in 0..s.steps { h = mix(h, i.step()); }
    mix(h, i.end())
}

fn input(r: &mut Rng, n: usize) -> Vec<u8> {
    let mut v = if r.bool() { data::hostile(r, n).1 } else { data::any(n, r).1 };
    v.resize(n, 7);
    v
}

fn bit_at(v: &[u8], k: usize) -> Bit {
    Bit::from((v[k / 8] >> (7 - k % 8)) & 1 == 1)
}

struct Pred<'a> { p: Predictor<'a>, v: Vec<u8>, k: usize }
impl<'a> Instance for Pred<'a> {
    fn step(&mut self) -> u64 {
        if self.k % 8 == 0 { self.p.start_new_byte(); }
        let q = self.p.predict().raw();
        self.p.update(bit_at(&self.v, self.k));
        self.k += 1;
        q as u64
    }
    fn abuse(&mut self) {
        match self.v.len() % 3 {
            0 => self.p.update(Bit::One),
            1 => {
                if self.k % 8 == 0 { self.p.start_new_byte(); }
                self.p.predict();
                self.p.predict();
            }
            _ => {
                if self.k % 8 == 0 { self.p.start_new_byte(); }
                self.p.predict();
                self.p.start_new_byte();
            }
        }
    }
}

struct Src<'a, S: HistorySource<'a>> { s: S, got: CollectedContextStates, v: Vec<u8>, k: usize, r: Rng, costs: bool, luts: &'a LookUpTables }

fn source<'a, S: HistorySource<'a> + 'a>(window: usize, order: usize, mut r: Rng, n: usize, luts: &'a LookUpTables) -> Box<dyn Instance + 'a> {
    let v = input(&mut r, n);
    // the brute force source takes default cost records only
    let costs = !std::any::type_name::<S>().contains("Naive");
    Box::new(Src { s: S::new(window, order, luts), got: CollectedContextStates::new(order), v, k: 0, r, costs, luts })
}

impl<'a, S: HistorySource<'a>> Instance for Src<'a, S> {
    fn step(&mut self) -> u64 {
        let _ = self.luts;
        if self.k % 8 == 0 { self.s.start_new_byte(); }
        self.got.reset();
        self.s.gather_history_states(&mut self.got);
        let mut h = self.got.items().len() as u64;
        for x in self.got.items() {
            h = mix(h, (x.last_occurrence_distance() as u64) << 16 | x.occurrence_count() as u64);
        }
        if self.k % 16 == 5 {
            h = hash_bytes(h, format!("{:?}", self.got.items()).as_bytes());
        }
        let (r, costs) = (&mut self.r, self.costs);
        let feed: Vec<CostTrackers> = self.got.items().iter().filter(|x| x.is_for_node())
            .map(|_| if costs { CostTrackers::new(CostTracker::new(r.u64() as u16), CostTracker::new(r.u64() as u16)) } else { CostTrackers::DEFAULT }).collect();
        self.s.process_input_bit(bit_at(&self.v, self.k), &feed);
        self.k += 1;
        h
    }
    fn abuse(&mut self) {
        self.got.reset();
        match self.r.below(4) {
            0 => self.s.start_new_byte(),
            // collecting twice, or into a collection that is in use
            1 => {
                while self.got.items().is_empty() && self.k / 8 + 1 < self.v.len() { self.step(); }
                if self.k % 8 == 0 { self.s.start_new_byte(); }
                self.s.gather_history_states(&mut self.got);
                self.s.gather_history_states(&mut self.got);
            }
            // more cost records than contexts
            2 => {
                if self.k % 8 == 0 { self.s.start_new_byte(); }
                self.s.process_input_bit(Bit::One, &vec![CostTrackers::DEFAULT; 99]);
            }
            // past the end of the byte
            _ => for _ in 0..20 { self.s.process_input_bit(Bit::One, &[]); },
        }
        self.s.start_new_byte();
        self.s.start_new_byte();
    }
}

struct Mix<'a, M: Mixer> { m: M, r: Rng, limit: u16, luts: &'a LookUpTables }
fn train<'a, M: Mixer + 'a>(m: M, mut r: Rng, luts: &'a LookUpTables) -> Box<dyn Instance + 'a> {
    let limit = r.range(200, 1000) as u16;
    Box::new(Mix { m, r, limit, luts })
}
impl<'a, M: Mixer> Instance for Mix<'a, M> {
    fn step(&mut self) -> u64 {
        for i in 0..self.m.size() {
            let raw = match self.r.below(4) {
                0 => StretchedProbD::MIN.raw(),
                1 => StretchedProbD::MAX.raw(),
                _ => self.r.range(StretchedProbD::MIN.raw() as i64, StretchedProbD::MAX.raw() as i64) as i32,
            };
            let st = StretchedProbD::new(raw, 21);
            self.m.set_input(i, self.luts.squash_lut().squash(st), st);
        }
        let (sq, st) = self.m.mix_all(self.luts.squash_lut());
        self.m.update_and_reset(Bit::from(self.r.bool()), sq, self.limit, self.luts.d_estimator_rates());
        let mut h = (sq.raw() as u64) << 32 | st.raw() as u32 as u64;
        for i in 0..self.m.size() { h = mix(h, self.m.weight(i).raw() as u32 as u64); }
        h
    }
    fn abuse(&mut self) {
        let half = FractOnlyU32::HALF;
        match self.r.below(3) {
            0 => { self.m.mix_all(self.luts.squash_lut()); }
            1 => {
                self.m.set_input(0, half, StretchedProbD::ZERO);
                self.m.set_input(0, half, StretchedProbD::ZERO);
            }
            _ => self.m.update_and_reset(Bit::One, half, self.limit, self.luts.d_estimator_rates()),
        }
    }
}

struct Map<'a> { m: AdaptiveProbabilityMap, bits: u8, contexts: usize, fixed: bool, rate: u8, r: Rng, luts: &'a LookUpTables }
impl<'a> Instance for Map<'a> {
    fn step(&mut self) -> u64 {
        let ctx = match self.r.below(4) { 0 => self.contexts - 1, 1 => 0, _ => self.r.usize(0, self.contexts - 1) };
        let near = self.r.log_uniform((1 << 31) - 2) as u32;
        let sq = match self.r.below(3) { 0 => near, 1 => (1u32 << 31) - near, _ => 1 + self.r.below((1 << 31) - 1) as u32 };
        let sq = FractOnlyU32::new(sq.clamp(1, (1 << 31) - 1), 31);
        let st = self.luts.stretch_lut().stretch(sq);
        let out = self.m.refine(ctx, sq, st, self.luts.apm_lut(self.bits));
        self.m.update_predictions(ctx, Bit::from(self.r.bool()), self.rate, self.fixed);
        out.raw() as u64
    }
    fn abuse(&mut self) { self.m.update_predictions(0, Bit::One, self.rate, self.fixed); }
}

struct Estimators<'a> { d: Vec<DeceleratingEstimator>, f: Vec<FixedSpeedEstimator>, c: Vec<CostTracker>, r: Rng, luts: &'a LookUpTables }
impl<'a> Instance for Estimators<'a> {
    fn step(&mut self) -> u64 {
        let k = self.r.below(8) as usize;
        let b = Bit::from(self.r.chance(k as f64 / 8.0));
        let p = self.d[k].prediction();
        self.d[k].update(b, self.luts.d_estimator_rates());
        self.c[k] = self.c[k].updated_on_bit(p, b, self.luts);
        let h = mix(p.raw() as u64, mix(self.f[k].prediction().raw() as u64, self.c[k].raw() as u64));
        self.f[k].update(b);
        h
    }
}

struct Shared { bytes: Arc<Mutex<Vec<u8>>>, at: usize }
impl Write for Shared {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.bytes.lock().unwrap().extend_from_slice(b);
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
impl Read for Shared {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        let v = self.bytes.lock().unwrap();
        let n = b.len().min(v.len() - self.at);
        b[..n].copy_from_slice(&v[self.at..self.at + n]);
        self.at += n;
        Ok(n)
    }
}

fn event(r: &mut Rng, f: impl FnOnce(Option<FinalProbability>, bool)) {
    if r.chance(0.05) { f(None, r.chance(0.2)) } else {
        let p = match r.below(4) { 0 => 1, 1 => (1 << 23) - 1, 2 => r.log_uniform((1 << 23) - 1) as u32, _ => 1 + r.below((1 << 23) - 1) as u32 };
        f(Some(FinalProbability::new(p, 23)), r.bool())
    }
}

struct Enc { e: Option<Encoder<'static>>, w: *mut Shared, out: Arc<Mutex<Vec<u8>>>, r: Rng }
impl Instance for Enc {
    fn step(&mut self) -> u64 {
        let e = self.e.as_mut().unwrap();
        event(&mut self.r, |p, b| match p { Some(p) => e.encode_bit(p, Bit::from(b)), None => e.encode_rare_event(b) });
        self.out.lock().unwrap().len() as u64
    }
    fn end(mut self: Box<Self>) -> u64 {
        self.e = None;
        let h = hash_bytes(H0, &self.out.lock().unwrap());
        h
    }
}
impl Drop for Enc {
    fn drop(&mut self) {
        self.e = None;
        unsafe { drop(Box::from_raw(self.w)) }
    }
}

struct Dec { d: Option<Decoder<'static>>, w: *mut Shared, r: Rng }
impl Instance for Dec {
    fn step(&mut self) -> u64 {
        let d = self.d.as_mut().unwrap();
        let mut h = 0;
        event(&mut self.r, |p, _| h = match p { Some(p) => d.decode_bit(p).is_1() as u64, None => d.decode_rare_event() as u64 });
        h
    }
}
impl Drop for Dec {
    fn drop(&mut self) {
        self.d = None;
        unsafe { drop(Box::from_raw(self.w)) }
    }
}

struct Numbers { t: MersenneTwister, k: u64 }
impl Instance for Numbers {
    fn step(&mut self) -> u64 {
        self.k += 1;
        match self.k % 4 { 0 => self.t.next_real2().to_bits(), 1 => self.t.next_int63() as u64, _ => self.t.next_int64() }
    }
}

struct Recent { c: LastBytesCache, w: InputWindow, cap: usize, v: Vec<u8>, k: usize }
impl Instance for Recent {
    fn step(&mut self) -> u64 {
        let left = 7 - self.k % 8;
        if left == 7 {
            self.c.start_new_byte();
            if self.w.size() == self.cap { self.w.advance_start(); }
            self.w.advance_cursor();
        }
        let b = bit_at(&self.v, self.k);
        self.w.set_bit_at_cursor(b, left);
        let h = (self.c.hash01_16() as u64) << 32 | (self.c.hash02_16() as u64) << 16 | self.c.hash03_16() as u64;
        self.c.on_next_bit(b);
        let h = mix(h, self.w.get_bit(self.w.cursor(), left).is_1() as u64);
        self.k += 1;
        mix(h, self.w.size() as u64)
    }
    fn abuse(&mut self) { while self.k % 8 != 3 { self.step(); } self.c.start_new_byte(); }
}
