//! Byte-sequence generators: inputs with very different repetition structure.
use crate::Rng;

pub const KINDS: &[&str] = &[
    "random", "tiny-alphabet", "binary-alphabet", "runs", "periodic", "period-glitch", "fibonacci",
    "thue-morse", "copy-mutate", "markov", "text", "debruijn", "shared-prefix-bits",
    "palindromes", "ramp", "constant", "blocks", "switching",
];

const WORDS: &[&str] = &[
    "the ", "compress", "or ", "suffix ", "tree ", "edge", "node ", "window ", "slid", "ing ",
    "probability ", "of ", "bit", "s ", "and ", "a", "mixer ", "\n", ", ", ". ", "0", "1", "2018",
];

pub fn by_kind(kind: &str, len: usize, r: &mut Rng) -> Vec<u8> {
    let mut v: Vec<u8> = Vec::with_capacity(len + 64);
    match kind {
        "random" => (0..len).for_each(|_| v.push(r.u8())),
        "tiny-alphabet" => {
            let k = r.usize(2, 6);
            let alpha: Vec<u8> = (0..k).map(|_| r.u8()).collect();
            (0..len).for_each(|_| v.push(*r.pick(&alpha)));
        }
        "binary-alphabet" => {
            // two symbols differing in exactly one bit: deep shared bit paths
            let a = r.u8();
            let b = a ^ (1 << r.below(8));
            let p = 0.05 + 0.9 * r.f64();
            (0..len).for_each(|_| v.push(if r.chance(p) { a } else { b }));
        }
        "runs" => {
            while v.len() < len {
                let b = if r.chance(0.7) { *r.pick(&[0u8, 255, b'a', 0x80, 0x7f]) } else { r.u8() };
                let n = r.log_uniform(1 + (len as u64) / 2) as usize;
                v.extend(std::iter::repeat(b).take(n));
            }
        }
        "periodic" => {
            let p = r.log_uniform(1 + (len as u64) / 2) as usize;
            let k = *r.pick(&[2u64, 4, 256]);
            let base: Vec<u8> = (0..p).map(|_| r.below(k) as u8).collect();
            (0..len).for_each(|i| v.push(base[i % p]));
        }
        "period-glitch" => {
            let p = r.usize(1, 12);
            let base: Vec<u8> = (0..p).map(|_| r.u8()).collect();
            let g = 0.2 * r.f64() * r.f64();
            (0..len).for_each(|i| {
                let x = base[i % p];
                v.push(if r.chance(g) { x ^ (1 << r.below(8)) } else { x })
            });
        }
        "fibonacci" => {
            let (a, b) = (r.u8(), r.u8());
            let (mut x, mut y) = (vec![a], vec![a, b]);
            while y.len() < len {
                let mut z = y.clone();
                z.extend_from_slice(&x);
                x = y;
                y = z;
            }
            v = y;
        }
        "thue-morse" => {
            let (a, b) = (r.u8(), r.u8());
            (0..len).for_each(|i| v.push(if (i as u64).count_ones() % 2 == 0 { a } else { b }));
        }
        "copy-mutate" => {
            let k = *r.pick(&[2u64, 3, 16, 256]);
            let seed = 1 + r.below(16) as usize;
            (0..seed).for_each(|_| v.push(r.below(k) as u8));
            while v.len() < len {
                if r.chance(0.25) {
                    v.push(r.below(k) as u8);
                } else {
                    let from = r.below(v.len() as u64) as usize;
                    let n = r.log_uniform(80) as usize;
                    for i in 0..n {
                        let b = v[from + i];
                        v.push(if r.chance(0.01) { b ^ (1 << r.below(8)) } else { b });
                    }
                }
            }
        }
        "markov" => {
            let k = r.usize(2, 8);
            let alpha: Vec<u8> = (0..k).map(|_| r.u8()).collect();
            let mut s = 0usize;
            let table: Vec<Vec<usize>> = (0..k).map(|_| (0..3).map(|_| r.usize(0, k - 1)).collect()).collect();
            (0..len).for_each(|_| {
                s = if r.chance(0.9) { table[s][if r.chance(0.7) { 0 } else { 1 }] } else { table[s][2] };
                v.push(alpha[s]);
            });
        }
        "text" => {
            while v.len() < len {
                v.extend_from_slice(r.pick(WORDS).as_bytes());
            }
        }
        "debruijn" => {
            // B(2,n) over two symbols, repeated
            let n = r.usize(2, 8);
            let (a, b) = (r.u8(), r.u8());
            let mut seen = vec![false; 1 << n];
            let mask = (1 << n) - 1;
            let mut st = 0usize;
            let mut seq = vec![];
            loop {
                let one = ((st << 1) | 1) & mask;
                let zero = (st << 1) & mask;
                if !seen[one] {
                    seen[one] = true;
                    st = one;
                    seq.push(b);
                } else if !seen[zero] {
                    seen[zero] = true;
                    st = zero;
                    seq.push(a);
                } else {
                    break;
                }
            }
            (0..len).for_each(|i| v.push(seq[i % seq.len()]));
        }
        "shared-prefix-bits" => {
            // bytes that share a long bit prefix
            let a = r.u8();
            let m = (1u8 << r.usize(1, 3)) - 1;
            (0..len).for_each(|_| v.push((a & !m) | (r.u8() & m)));
        }
        "palindromes" => {
            while v.len() < len {
                let n = r.usize(1, 20);
                let w: Vec<u8> = (0..n).map(|_| b'a' + r.below(3) as u8).collect();
                v.extend_from_slice(&w);
                v.extend(w.iter().rev());
            }
        }
        "ramp" => {
            let step = r.u8();
            let m = r.usize(1, 256);
            (0..len).for_each(|i| v.push(((i % m) as u8).wrapping_mul(step)));
        }
        "constant" => {
            let b = *r.pick(&[0u8, 255, 0x55, 0xaa, 1, 0x80]);
            v.resize(len, b);
        }
        "blocks" => {
            while v.len() < len {
                if v.len() > 4 && r.chance(0.6) {
                    let n = r.usize(1, v.len());
                    let from = r.usize(0, v.len() - n);
                    let w = v[from..from + n].to_vec();
                    v.extend_from_slice(&w);
                } else {
                    let n = r.usize(1, 9);
                    (0..n).for_each(|_| v.push(r.u8()));
                }
            }
        }
        "switching" => {
            while v.len() < len {
                let k = *r.pick(&KINDS[..KINDS.len() - 1]);
                let n = r.usize(1, 1 + len / 2);
                v.extend(by_kind(k, n, r));
            }
        }
        _ => panic!("unknown kind"),
    }
    v.truncate(len);
    v
}

/// A random kind; returns its name too.
pub fn any(len: usize, r: &mut Rng) -> (&'static str, Vec<u8>) {
    let k = *r.pick(KINDS);
    (k, by_kind(k, len, r))
}

pub fn hex(v: &[u8]) -> String {
    let mut s = String::new();
    for b in v.iter().take(96) {
        s.push_str(&format!("{:02x}", b));
    }
    if v.len() > 96 {
        s.push_str("..");
    }
    s
}

/// regimes that drive weights, counts and probabilities to their ends
pub fn hostile(r: &mut Rng, len: usize) -> (&'static str, Vec<u8>) {
    let mut v = Vec::with_capacity(len + 4096);
    let name = *r.pick(&["saturate-then-betray", "alternate-regimes", "anti-predictable", "two-level", "late-random"]);
    match name {
        "saturate-then-betray" => {
            let b = r.u8();
            while v.len() < len {
                let n = r.log_uniform(len as u64) as usize;
                v.extend(std::iter::repeat(b).take(n));
                v.push(b ^ (1 << r.below(8)));
                if r.chance(0.2) { v.push(r.u8()); }
            }
        }
        "alternate-regimes" => {
            let a: Vec<u8> = (0..r.usize(1, 30)).map(|_| r.u8()).collect();
            let b: Vec<u8> = a.iter().map(|x| !x).collect();
            let mut k = 0;
            while v.len() < len {
                let n = r.usize(1, 60);
                for _ in 0..n { v.extend_from_slice(if k % 2 == 0 { &a } else { &b }); }
                k += 1;
            }
        }
        "anti-predictable" => {
            // each byte the complement of what followed the last two before
            let mut last = std::collections::HashMap::new();
            let (mut x, mut y) = (r.u8(), r.u8());
            while v.len() < len {
                let z = !last.get(&(x, y)).copied().unwrap_or(r.u8() & 3);
                last.insert((x, y), z);
                v.push(z);
                x = y;
                y = z;
            }
        }
        "two-level" => {
            let (a, b) = (r.u8(), r.u8());
            let mut p = 0.001;
            while v.len() < len {
                if r.chance(0.001) { p = 1.0 - p; }
                v.push(if r.chance(p) { a } else { b });
            }
        }
        _ => {
            v.resize(len / 2, r.u8());
            while v.len() < len { v.push(r.u8()); }
        }
    }
    v.truncate(len);
    (name, v)
}

/// distances at which representations tend to change
pub fn marks(max: usize) -> Vec<usize> {
    let mut m = vec![];
    let mut p = 2usize;
    while p <= max {
        m.extend([p - 1, p, p + 1]);
        p *= 2;
    }
    let mut p = 10usize;
    while p <= max {
        m.extend([p - 1, p, p + 1, 2 * p, 5 * p, 5 * p + 1]);
        p *= 10;
    }
    m.extend([700, 900, 1023, 1500, 3000, 40_000, 60_000, 70_000, 100_003, 150_000]);
    m.retain(|&d| d >= 8 && d < max);
    m.sort();
    m.dedup();
    m
}

/// Cheap filler in which unique tokens come back at exactly the distances of
/// `marks`; returns the number of repeats placed.
pub fn distances(r: &mut Rng, len: usize) -> (usize, Vec<u8>) {
    let p = r.usize(1, 40);
    let unit: Vec<u8> = (0..p).map(|_| r.u8() & 0x7f).collect();
    let v: Vec<u8> = (0..len).map(|i| unit[i % p]).collect();
    distances_in(r, v)
}

/// The same in a given filler of bytes below 0x80.
pub fn distances_in(r: &mut Rng, mut v: Vec<u8>) -> (usize, Vec<u8>) {
    let len = v.len();
    let mut used = vec![false; len];
    let mut placed = 0;
    let n = 10;
    let mut list = marks(len - 2 * n);
    for i in 0..list.len() {
        let j = r.usize(0, i);
        list.swap(i, j);
    }
    for (id, &d) in list.iter().enumerate() {
        if d <= n { continue; }
        for _ in 0..60 {
            let at = d + r.usize(0, len - d - n - 1);
            if used[at..at + n].iter().any(|&u| u) || used[at - d..at - d + n].iter().any(|&u| u) {
                continue;
            }
            let mut token = vec![0x80 | id as u8, 0x80 | (id >> 7) as u8 | r.u8() & 0x70];
            while token.len() < n - 2 { token.push(r.u8()); }
            token.resize(n, r.u8());
            v[at - d..at - d + n].copy_from_slice(&token);
            // sometimes another continuation the second time
            if r.bool() { token[n - 1] ^= 1 << r.below(8); }
            if r.chance(0.3) { token[4] ^= 1 << r.below(8); }
            v[at..at + n].copy_from_slice(&token);
            used[at..at + n].fill(true);
            used[at - d..at - d + n].fill(true);
            placed += 1;
            break;
        }
    }
    (placed, v)
}
