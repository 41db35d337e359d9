//! C21: results do not depend on the build mode, no arithmetic overflows.
//! The release-mode run records digests; the overflow-checked run recomputes
//! and compares them, and panics wherever arithmetic overflows.
#[path = "../dx/pred.rs"]
mod pred;
use demixer::bit::Bit;
use demixer::coding::encoder::Encoder;
use demixer::estimators::cost::CostTracker;
use demixer::fixed_point::FixedPoint;
use demixer::fixed_point::types::{FractOnlyU32, StretchedProbD};
use demixer::history::fat_map::FatMapHistorySource;
use demixer::history::naive::NaiveHistorySource;
use demixer::history::tree::node::CostTrackers;
use demixer::history::tree::TreeHistorySource;
use demixer::history::{CollectedContextStates, HistorySource};
use demixer::lut::LookUpTables;
use demixer::mixing::apm::AdaptiveProbabilityMap;
use demixer::mixing::mixer::{FixedSizeMixer, Mixer, Mixer1, Mixer2, Mixer3, Mixer4, Mixer5, MixerInitializationMode, MixerN};
use demixer::random::MersenneTwister;
use demixer::util::last_bytes::LastBytesCache;
use pred::*;
use std::collections::BTreeMap;
use std::process::{Command, Stdio};
use std::sync::Mutex;
use vh::{data, ensure, hash_bytes, mix, Case, Rng, H0};

type Table = BTreeMap<(String, u64), Vec<(String, u64)>>;

struct Book {
    recording: bool,
    have: Option<Table>,
    new: Mutex<Table>,
}

impl Book {
    fn open(path: &str, recording: bool) -> Book {
        let mut have = None;
        if !recording {
            if let Ok(text) = std::fs::read_to_string(path) {
                let mut t = Table::new();
                for line in text.lines() {
                    let w: Vec<&str> = line.split(' ').collect();
                    let d = w[2..].chunks(2).map(|p| (p[0].to_string(), u64::from_str_radix(p[1], 16).unwrap())).collect();
                    t.insert((w[0].to_string(), w[1].parse().unwrap()), d);
                }
                have = Some(t);
            }
        }
        Book { recording, have, new: Mutex::new(Table::new()) }
    }
    /// `digests`: what was observed, by name
    fn enter(&self, c: &mut Case, workload: &str, digests: &[(&str, u64)]) {
        let key = (workload.to_string(), c.index);
        if self.recording {
            let d = digests.iter().map(|(n, d)| (n.to_string(), *d)).collect();
            self.new.lock().unwrap().insert(key, d);
            c.count("digests recorded", digests.len() as u64);
            return;
        }
        let want = match self.have.as_ref().and_then(|h| h.get(&key)) {
            Some(w) => w,
            None => return,
        };
        for ((n, d), (wn, wd)) in digests.iter().zip(want) {
            ensure!(c, n == wn && d == wd, "{} differ between the overflow-checked build ({:016x}) and the release build ({:016x})", n, d, wd);
        }
        c.count("digests compared with the release build", digests.len() as u64);
    }
    fn close(self, path: &str) {
        if self.recording {
            let mut s = String::new();
            for ((w, i), d) in self.new.into_inner().unwrap() {
                s.push_str(&format!("{} {}", w, i));
                for (n, d) in d {
                    s.push_str(&format!(" {} {:016x}", n.replace(' ', "-"), d));
                }
                s.push('\n');
            }
            std::fs::write(path, s).expect("cannot write the digests");
        }
    }
}

fn setup(r: &mut Rng, len: usize) -> Setup {
    match r.below(6) {
        0 => Setup::Default,
        1 => Setup::Window(r.usize(1, 40), r.usize(0, 20)),
        2 => Setup::Window((len / 2).max(2), 20),
        _ => Setup::Window(1 + r.log_uniform(2 * len as u64 + 8) as usize, r.usize(1, 20)),
    }
}

fn source<'a, S: HistorySource<'a>>(c: &mut Case, v: &[u8], window: usize, order: usize, luts: &'a LookUpTables, r: &mut Rng, every: usize, costs: bool) -> u64 {
    let mut s = c.guarded("creating the source", || S::new(window, order, luts));
    let mut got = CollectedContextStates::new(order);
    let mut h = H0;
    for (pos, &b) in v.iter().enumerate() {
        c.guarded("starting a byte", || s.start_new_byte());
        for left in (0..8).rev() {
            got.reset();
            c.guarded("gathering", || s.gather_history_states(&mut got));
            h = mix(h, got.items().len() as u64);
            if pos % every == 0 {
                for x in got.items() {
                    h = hash_bytes(h, format!("{:?}", x).as_bytes());
                }
            } else {
                for x in got.items() {
                    h = mix(h, (x.last_occurrence_distance() as u64) << 16 | x.occurrence_count() as u64);
                }
            }
            let feed: Vec<CostTrackers> = got.items().iter().filter(|x| x.is_for_node())
                .map(|_| if costs { CostTrackers::new(CostTracker::new(r.u64() as u16), CostTracker::new(r.u64() as u16)) } else { CostTrackers::DEFAULT }).collect();
            c.guarded("processing a bit", || s.process_input_bit(Bit::from((b >> left) & 1 == 1), &feed));
            c.count("context reports digested", 1);
        }
    }
    h
}

fn train<M: Mixer>(c: &mut Case, m: &mut M, luts: &LookUpTables, steps: usize) -> u64 {
    let mut h = H0;
    let n = m.size();
    let limit = c.rng.range(200, 1000) as u16;
    let stuck = c.rng.chance(0.3);
    for _ in 0..steps {
        for i in 0..n {
            let st_raw = match c.rng.below(4) {
                0 => StretchedProbD::MIN.raw(),
                1 => StretchedProbD::MAX.raw(),
                _ => c.rng.range(StretchedProbD::MIN.raw() as i64, StretchedProbD::MAX.raw() as i64) as i32,
            };
            let st = StretchedProbD::new(st_raw, 21);
            let sq = luts.squash_lut().squash(st);
            m.set_input(i, sq, st);
        }
        let (sq, st) = c.guarded("mixing", || m.mix_all(luts.squash_lut()));
        h = mix(h, (sq.raw() as u64) << 32 | st.raw() as u32 as u64);
        let bit = if stuck { sq.raw() > 1 << 30 } else { c.rng.bool() };
        c.guarded("training", || m.update_and_reset(Bit::from(bit), sq, limit, luts.d_estimator_rates()));
        for i in 0..n {
            h = mix(h, m.weight(i).raw() as u32 as u64);
        }
    }
    c.count("mixer steps digested", steps as u64);
    h
}

fn report(out: &[u8]) -> String {
    String::from_utf8_lossy(out).lines().filter(|l| !(l.contains("seconds") || l.starts_with("speed")))
        .collect::<Vec<_>>().join("\n")
}

fn main() {
    let base = std::env::var("B").unwrap_or("/verif/.build".into());
    let recording = !cfg!(debug_assertions);
    let seed = std::env::args().collect::<Vec<_>>().windows(2).find(|w| w[0] == "--seed").map(|w| w[1].clone())
        .or(std::env::var("VERIF_SEED").ok()).unwrap_or("1".into());
    let path = format!("{}/c21-digests-{}", base, seed);
    vh::check("C21", "exploration",
        "case = input and configuration, run in both builds; digests of everything observable must be equal and overflow-checked arithmetic must not fail; non-trivial when at least 16 bytes or 50 steps; distinct by input and configuration",
        |r| {
            let luts = LookUpTables::new();
            let l = &luts;
            let book = Book::open(&path, recording);
            let b = &book;
            let n = r.n(400, 8_000);
            r.cases("predictor", n, |c| {
                let max = if c.index % 10 == 0 { 60_000 } else { 5_000 };
                let len = c.rng.log_uniform(max) as usize - 1;
                let (k, v) = if c.rng.chance(0.4) { data::hostile(&mut c.rng, len) } else { data::any(len, &mut c.rng) };
                let s = setup(&mut c.rng, v.len());
                c.desc(format!("{} {} bytes, {:?}: {}", k, v.len(), s, data::hex(&v[..v.len().min(200)])));
                c.sig(hash_bytes(H0, format!("{:?}", s).as_bytes()));
                c.sig_bytes(&v);
                if v.len() >= 16 { c.nontrivial(); }
                let mut coded = vec![];
                let mut h = H0;
                {
                    let mut e = Encoder::new(&mut coded);
                    let mut p = c.guarded("creating the predictor", || make(s, l));
                    drive(c, &mut p, &v, |_, _, prob, bit| {
                        h = mix(h, prob.raw() as u64);
                        c.guarded("encoding", || e.encode_bit(prob, Bit::from(bit)));
                    });
                    c.guarded("finishing", || drop(e));
                }
                c.count("predictions digested", v.len() as u64 * 8);
                c.count("coded bytes digested", coded.len() as u64);
                b.enter(c, "predictor", &[("predictions", h), ("coded-bytes", hash_bytes(H0, &coded)), ("coded-length", coded.len() as u64)]);
            });
            let n = r.n(500, 10_000);
            r.cases("sources", n, |c| {
                let which = c.index % 4;
                let len = c.rng.log_uniform(match which { 0 => 250, 1 => 2_000, _ => 8_000 }) as usize;
                let (k, v) = if c.rng.chance(0.3) { data::hostile(&mut c.rng, len) } else { data::any(len, &mut c.rng) };
                let order = if which == 0 { c.rng.usize(1, 20) } else { c.rng.usize(1, 63) };
                let window = if which < 2 { v.len().max(1) } else { 1 + c.rng.log_uniform(2 * len as u64) as usize };
                c.desc(format!("source {} order {} window {}: {} {} bytes: {}", which, order, window, k, v.len(), data::hex(&v[..v.len().min(200)])));
                c.sig(which << 40 | (order as u64) << 32 | window as u64);
                c.sig_bytes(&v);
                if v.len() >= 16 { c.nontrivial(); }
                let mut rr = Rng::new(c.rng.u64());
                let h = match which {
                    0 => source::<NaiveHistorySource>(c, &v, window, order, l, &mut rr, 4, false),
                    1 => source::<FatMapHistorySource>(c, &v, window, order, l, &mut rr, 16, true),
                    _ => source::<TreeHistorySource>(c, &v, window, order, l, &mut rr, 16, true),
                };
                b.enter(c, "sources", &[("context-reports", h)]);
            });
            let n = r.n(3_000, 60_000);
            r.cases("mixers", n, |c| {
                let size = 1 + c.rng.below(5) as usize;
                let mode = || MixerInitializationMode::DominantFirst;
                let steps = c.rng.log_uniform(1_500) as usize;
                let h = match c.index % 6 {
                    0 => train(c, &mut Mixer1::new(10, mode()), l, steps),
                    1 => train(c, &mut Mixer2::new(10, mode()), l, steps),
                    2 => train(c, &mut Mixer3::new(10, MixerInitializationMode::EqualSummingToOne), l, steps),
                    3 => train(c, &mut Mixer4::new(10, mode()), l, steps),
                    4 => train(c, &mut Mixer5::new(10, MixerInitializationMode::EqualSummingToOne), l, steps),
                    _ => {
                        let size = if c.rng.bool() { size } else { c.rng.usize(1, 30) };
                        train(c, &mut MixerN::new(size, 10, MixerInitializationMode::EqualSummingToOne), l, steps)
                    }
                };
                c.desc(format!("mixer {} trained {} times", c.index % 6, steps));
                c.sig(h);
                if steps >= 50 { c.nontrivial(); }
                b.enter(c, "mixers", &[("weights-and-outputs", h)]);
            });
            let n = r.n(1_200, 20_000);
            r.cases("maps", n, |c| {
                let bits = c.rng.below(3) as u8;
                let contexts = c.rng.usize(1, 40);
                let mut m = c.guarded("creating the map", || AdaptiveProbabilityMap::new(contexts, bits, l.squash_lut()));
                let steps = c.rng.log_uniform(3_000) as usize;
                let mut h = H0;
                let (fixed, rate) = (c.rng.bool(), c.rng.range(1, 10) as u8);
                for _ in 0..steps {
                    let ctx = c.rng.usize(0, contexts - 1);
                    let raw = match c.rng.below(4) {
                        0 => 1 + c.rng.below(600) as u32,
                        1 => (1u32 << 31) - 1 - c.rng.below(600) as u32,
                        _ => 1 + c.rng.below((1 << 31) - 1) as u32,
                    };
                    let sq = FractOnlyU32::new(raw, 31);
                    let st = l.stretch_lut().stretch(sq);
                    let out = c.guarded("refining", || m.refine(ctx, sq, st, l.apm_lut(bits)));
                    h = mix(h, out.raw() as u64);
                    let bit = c.rng.chance(out.raw() as f64 / (1u64 << 31) as f64);
                    c.guarded("training", || m.update_predictions(ctx, Bit::from(bit), rate, fixed));
                }
                c.count("map steps digested", steps as u64);
                c.desc(format!("map of resolution {} with {} contexts, {} steps", bits, contexts, steps));
                c.sig(h);
                if steps >= 50 { c.nontrivial(); }
                b.enter(c, "maps", &[("refined", h)]);
            });
            let n = r.n(300, 3_000);
            r.cases("utilities", n, |c| {
                let seed = if c.index == 0 { u64::MAX } else { c.rng.u64() };
                let mut t = c.guarded("seeding", || if seed & 1 == 0 { MersenneTwister::new_by_scalar_seed(seed) } else { MersenneTwister::new_by_vector_seed(&[seed, !seed, 0]) });
                let mut h = H0;
                for _ in 0..700 { h = mix(h, c.guarded("generating", || t.next_int64())); }
                let mut cache = LastBytesCache::new();
                let mut hh = H0;
                let v = data::any(200, &mut c.rng).1;
                for &x in &v {
                    cache.start_new_byte();
                    for left in (0..8).rev() {
                        hh = mix(hh, (cache.hash01_16() as u64) << 32 | (cache.hash02_16() as u64) << 16 | cache.hash03_16() as u64);
                        c.guarded("caching", || cache.on_next_bit(Bit::from((x >> left) & 1 == 1)));
                    }
                }
                c.desc(format!("random generator with seed {}, cache of {} bytes", seed, v.len()));
                c.sig(h ^ hh);
                c.nontrivial();
                b.enter(c, "utilities", &[("random-numbers", h), ("hashes", hh)]);
            });
            if !recording {
                let scratch = format!("{}/c21-scratch", base);
                std::fs::create_dir_all(&scratch).expect("cannot create the scratch directory");
                let n = r.n(60, 600);
                r.cases("programs", n, |c| {
                    let len = c.rng.log_uniform(20_000) as usize - 1;
                    let (k, v) = if c.rng.bool() { data::hostile(&mut c.rng, len) } else { data::any(len, &mut c.rng) };
                    c.desc(format!("compressor on {} {} bytes", k, v.len()));
                    c.sig_bytes(&v);
                    if v.len() >= 16 { c.nontrivial(); }
                    let f = format!("{}/{}-{}", scratch, std::process::id(), c.index);
                    std::fs::write(&f, &v).expect("cannot write a scratch file");
                    let o: Vec<_> = ["cli", "cli-shipped"].iter().map(|d| {
                        Command::new(format!("{}/{}/release/demixer", base, d)).arg(&f).stdin(Stdio::null()).output().expect("cannot start the program")
                    }).collect();
                    let _ = std::fs::remove_file(&f);
                    ensure!(c, o[0].status.success() && o[1].status.success(), "a build of the compressor failed: {} {}", o[0].status, o[1].status);
                    let (x, y) = (report(&o[0].stdout), report(&o[1].stdout));
                    ensure!(c, x == y, "reports differ: overflow-checked {:?}, as shipped {:?}", x, y);
                    c.count("program reports compared", 1);
                });
                r.require("digests compared with the release build", 5_000);
                r.require("program reports compared", 50);
            }
            r.require("predictions digested", 1_000_000);
            r.require("context reports digested", 1_000_000);
            r.assume("the two builds are this harness's 'checked' profile (integer overflow checks, debug assertions) and 'rel' profile (neither), both at opt-level 3 with the same compiler");
            book.close(&path);
        });
}
