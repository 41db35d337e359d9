//! C20: the generator is the standard 64-bit Mersenne Twister (mt19937-64).
use demixer::random::MersenneTwister;
use vh::{ensure, Case, Rng};

const N: usize = 312;
const M: usize = 156;

/// the recurrence over the infinite word sequence, as published
struct Reference {
    x: std::collections::VecDeque<u64>,
}

fn mag(y: u64) -> u64 {
    if y % 2 == 1 { 0xb502_6f5a_a966_19e9 } else { 0 }
}

fn twist(a: u64, b: u64, m: u64) -> u64 {
    let y = (a >> 31 << 31) | (b & ((1 << 31) - 1));
    m ^ (y >> 1) ^ mag(y)
}

fn temper(mut x: u64) -> u64 {
    x ^= (x >> 29) & 0x5555_5555_5555_5555;
    x ^= (x << 17) & 0x71d6_7fff_eda6_0000;
    x ^= (x << 37) & 0xfff7_eee0_0000_0000;
    x ^ (x >> 43)
}

fn untemper(y: u64) -> u64 {
    let mut x = y ^ (y >> 43);
    x ^= (x << 37) & 0xfff7_eee0_0000_0000;
    let y = x;
    for _ in 0..4 {
        x = y ^ ((x << 17) & 0x71d6_7fff_eda6_0000);
    }
    let y = x;
    for _ in 0..3 {
        x = y ^ ((x >> 29) & 0x5555_5555_5555_5555);
    }
    x
}

fn scalar_state(seed: u64) -> Vec<u64> {
    let mut s = vec![seed];
    for i in 1..N as u128 {
        let p = *s.last().unwrap();
        let v = 6364136223846793005u128 * (p ^ (p >> 62)) as u128 + i;
        s.push(v as u64);
    }
    s
}

const K1: u64 = 3935559000370003845;
const K2: u64 = 2862933555777941757;

fn g(k: u64, p: u64) -> u64 {
    ((p ^ (p >> 62)) as u128 * k as u128) as u64
}

fn vector_state(key: &[u64]) -> Vec<u64> {
    let mut s = scalar_state(19650218);
    let (mut i, mut j) = (1, 0);
    for _ in 0..N.max(key.len()) {
        s[i] = (s[i] ^ g(K1, s[i - 1])).wrapping_add(key[j]).wrapping_add(j as u64);
        i += 1;
        j = (j + 1) % key.len();
        if i == N { s[0] = s[N - 1]; i = 1; }
    }
    for _ in 0..N - 1 {
        s[i] = (s[i] ^ g(K2, s[i - 1])).wrapping_sub(i as u64);
        i += 1;
        if i == N { s[0] = s[N - 1]; i = 1; }
    }
    s[0] = 1 << 63;
    s
}

/// the key whose seeding gives the wanted state (word 0 is always 2^63)
fn key_for(f: &[u64], rng: &mut Rng) -> Vec<u64> {
    let mut s = f.to_vec();
    s[1] = f[1].wrapping_add(1) ^ g(K2, f[N - 1]);
    for i in 2..N {
        let prev = if i == 2 { s[1] } else { f[i - 1] };
        s[i] = f[i].wrapping_add(i as u64) ^ g(K2, prev);
    }
    let init = scalar_state(19650218);
    let mut key = vec![rng.u64()];
    let a1 = (init[1] ^ g(K1, init[0])).wrapping_add(key[0]);
    for j in 1..N - 1 {
        let i = j + 1;
        let prev = if i == 2 { a1 } else { s[i - 1] };
        key.push(s[i].wrapping_sub(j as u64).wrapping_sub(init[i] ^ g(K1, prev)));
    }
    key.push(s[1].wrapping_sub(N as u64 - 1).wrapping_sub(a1 ^ g(K1, s[N - 1])));
    key
}

impl Reference {
    fn new(state: Vec<u64>) -> Self {
        Reference { x: state.into() }
    }
    fn next(&mut self) -> u64 {
        let v = twist(self.x[0], self.x[1], self.x[M]);
        self.x.push_back(v);
        self.x.pop_front();
        temper(v)
    }
}

fn compare(c: &mut Case, g: &mut MersenneTwister, w: &mut Reference, n: u64, mixed: bool) {
    for i in 0..n {
        let want = w.next();
        let ideal = want as f64 / 18446744073709551616.0;
        let kind = if mixed { c.rng.below(5) } else { 0 };
        match kind {
            0 => {
                let got = c.guarded("next_int64", || g.next_int64());
                ensure!(c, got == want, "number {} is {:016x}, the standard generator gives {:016x}", i, got, want);
            }
            1 => {
                let got = c.guarded("next_int63", || g.next_int63());
                ensure!(c, got >= 0 && got as u64 == want >> 1, "63-bit number {} is {:x} instead of {:x}", i, got, want >> 1);
            }
            k => {
                let got = c.guarded("next_real", || match k { 2 => g.next_real1(), 3 => g.next_real2(), _ => g.next_real3() });
                let inside = match k {
                    2 => got >= 0.0 && got <= 1.0,
                    3 => got >= 0.0 && got < 1.0,
                    _ => got > 0.0 && got < 1.0,
                };
                ensure!(c, inside, "real number {} (variant {}) is {:e}, outside its interval", i, k - 1, got);
                ensure!(c, (got - ideal).abs() <= 4.0 / 9007199254740992.0,
                        "real number {} (variant {}) is {:e}, the standard generator gives {:e}", i, k - 1, got, ideal);
                if want >> 11 == (1 << 53) - 1 && k == 2 {
                    ensure!(c, got == 1.0, "the closed interval's upper end is never reached: {:e}", got);
                }
                if want >> 11 == 0 && k != 4 {
                    ensure!(c, got == 0.0, "the lower end is never reached: {:e}", got);
                }
            }
        }
        c.count("numbers compared", 1);
    }
}

fn main() {
    vh::check("C20", "exploration",
        "case = seed (scalar, array, or an array steered to give chosen outputs) and a stream across several state regenerations, compared with the published recurrence; distinct by seed and stream",
        |r| {
            r.once("published-value", |c| {
                // the C++ standard fixes the 10000th number of the default seed
                let mut w = Reference::new(scalar_state(5489));
                let mut g = MersenneTwister::default();
                let (mut a, mut b) = (0, 0);
                for _ in 0..10_000 { a = w.next(); b = g.next_int64(); }
                assert_eq!(a, 9981545732273789042, "the reference itself is wrong");
                ensure!(c, b == a, "the 10000th number of the default seed is {}", b);
                c.count("numbers compared", 10_000);
                c.nontrivial();
            });
            let n = r.n(1_500, 60_000);
            r.cases("scalar-seeds", n, |c| {
                let seed = match c.rng.below(4) {
                    0 => c.index, 1 => 1u64 << c.rng.below(64), 2 => u64::MAX - c.rng.below(3), _ => c.rng.u64(),
                };
                c.desc(format!("seed {:x}", seed));
                let mut g = c.guarded("seeding", || MersenneTwister::new_by_scalar_seed(seed));
                let mut w = Reference::new(scalar_state(seed));
                let n = c.rng.log_uniform(5_000);
                let mixed = c.rng.bool();
                compare(c, &mut g, &mut w, n, mixed);
                c.sig(seed);
                c.sig(n);
                c.nontrivial();
            });
            let n = r.n(1_500, 60_000);
            r.cases("array-seeds", n, |c| {
                let len = match c.rng.below(4) { 0 => c.rng.usize(1, 5), 1 => c.rng.usize(308, 318), 2 => c.rng.log_uniform(2_000) as usize, _ => c.rng.usize(1, 700) };
                let style = c.rng.below(3);
                let key: Vec<u64> = (0..len).map(|i| match style { 0 => 0, 1 => i as u64, _ => c.rng.u64() }).collect();
                c.desc(format!("array of {} words, style {}", len, style));
                let mut g = c.guarded("seeding", || MersenneTwister::new_by_vector_seed(&key));
                let mut w = Reference::new(vector_state(&key));
                let n = c.rng.log_uniform(3_000);
                compare(c, &mut g, &mut w, n, true);
                c.sig(len as u64);
                c.sig(style);
                c.sig(n);
                c.nontrivial();
            });
            let n = r.n(1_500, 60_000);
            r.cases("steered-extremes", n, |c| {
                // choose the first 156 outputs: interval ends and their neighbours
                let mut f: Vec<u64> = (0..N).map(|_| c.rng.u64()).collect();
                f[0] = 1 << 63;
                let mut wanted = vec![];
                for k in 0..M {
                    let o = match c.rng.below(6) {
                        0 => u64::MAX, 1 => 0, 2 => u64::MAX - c.rng.log_uniform(1 << 14), 3 => c.rng.log_uniform(1 << 14),
                        4 => (1u64 << c.rng.below(64)).wrapping_sub(c.rng.below(2)), _ => c.rng.u64(),
                    };
                    wanted.push(o);
                    let t = untemper(o);
                    f[k + M] = twist(f[k], f[k + 1], 0) ^ t;
                }
                let key = key_for(&f, &mut c.rng);
                let mut w = Reference::new(vector_state(&key));
                for k in 0..M {
                    assert_eq!(w.next(), wanted[k], "steering failed");
                }
                let mut w = Reference::new(vector_state(&key));
                let mut g = c.guarded("seeding", || MersenneTwister::new_by_vector_seed(&key));
                c.desc("array of 312 words steered to extreme outputs");
                compare(c, &mut g, &mut w, 1_000, true);
                c.count("steered numbers", M as u64);
                c.sig(key[1]);
                c.nontrivial();
            });
            let n = r.n(16, 200);
            r.cases("long-streams", n, |c| {
                let seed = c.rng.u64();
                c.desc(format!("seed {:x}, long", seed));
                let mut g = MersenneTwister::new_by_scalar_seed(seed);
                let mut w = Reference::new(scalar_state(seed));
                compare(c, &mut g, &mut w, 400_000, false);
                c.sig(seed);
                c.nontrivial();
            });
            r.assume("seed arrays are non-empty (the standard's reference code requires it)");
            r.require("numbers compared", 1_000_000);
            r.require("steered numbers", 10_000);
        });
}
