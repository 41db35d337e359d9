//! C16: the cache of recent bytes and the context hashes depend on exactly
//! the bytes they cover.
use demixer::bit::Bit;
use demixer::util::hash::Fnv1A;
use demixer::util::last_bytes::{LastBytesCache, UnfinishedByte};
use std::collections::HashMap;
use vh::{data, ensure, Case};

/// FNV-1a by its definition, in 128-bit arithmetic
fn fnv(bytes: &[u8]) -> u64 {
    let mut h: u128 = 14695981039346656037;
    for &b in bytes {
        h = ((h ^ b as u128) * 1099511628211) % (1u128 << 64);
    }
    h as u64
}
fn fold32(h: u64) -> u32 {
    ((h >> 32) ^ (h & 0xffff_ffff)) as u32
}
fn fold16(h: u64) -> u16 {
    let w = fold32(h);
    ((w >> 16) ^ (w & 0xffff)) as u16
}

/// what every accessor must return in front of bit `left` (7 = first) of the
/// byte at `pos`, from the raw input only (bytes before the input count as 0)
fn expected(v: &[u8], pos: usize, left: u32) -> [u64; 7] {
    let at = |k: usize| if pos >= k { v[pos - k] } else { 0 };
    let done = 7 - left;
    let part = if done == 0 { 0 } else { (v[pos] as u32) >> (8 - done) };
    let unfinished = (1 << done) + part;
    let h01 = (1u32 << (8 + done)) + ((at(1) as u32) << done) + part;
    [
        unfinished as u64, at(1) as u64, at(2) as u64, at(3) as u64, h01 as u64,
        fold16(fnv(&[at(2), at(1), unfinished as u8])) as u64,
        fold16(fnv(&[at(3), at(2), at(1), unfinished as u8])) as u64,
    ]
}
const NAMES: [&str; 7] = ["unfinished byte", "previous byte 1", "previous byte 2", "previous byte 3",
                          "order-1 hash", "order-2 hash", "order-3 hash"];

fn observed(c: &LastBytesCache) -> [u64; 7] {
    [c.unfinished_byte().raw() as u64, c.previous_byte_1() as u64, c.previous_byte_2() as u64,
     c.previous_byte_3() as u64, c.hash01_16() as u64, c.hash02_16() as u64, c.hash03_16() as u64]
}

fn run(c: &mut Case, v: &[u8]) {
    let mut cache = LastBytesCache::new();
    // equal recent bytes => equal hashes, whatever came before
    let mut by_context: HashMap<(u32, u32, u64), u64> = HashMap::new();
    for (pos, &b) in v.iter().enumerate() {
        cache.start_new_byte();
        ensure!(c, cache.unfinished_byte() == UnfinishedByte::EMPTY, "byte {} does not start empty", pos);
        for left in (0..8).rev() {
            let got = c.guarded("reading the cache", || observed(&cache));
            let want = expected(v, pos, left);
            for i in 0..7 {
                ensure!(c, got[i] == want[i],
                        "{} before bit {} of byte {} is {:x}, the input implies {:x}; last bytes {}",
                        NAMES[i], left, pos, got[i], want[i], data::hex(&v[pos.saturating_sub(5)..=pos]));
            }
            for (n, key) in [(1u32, want[1]), (2, want[1] | want[2] << 8),
                             (3, want[1] | want[2] << 8 | want[3] << 16)] {
                let k = (n, want[0] as u32, key);
                let e = *by_context.entry(k).or_insert(got[3 + n as usize]);
                ensure!(c, e == got[3 + n as usize],
                        "order-{} hash differs between two places with the same {} bytes", n, n);
            }
            // reading must not change anything, and copies are equal
            ensure!(c, observed(&cache) == got && observed(&cache.clone()) == got, "reading changed the cache");
            cache.on_next_bit(Bit::from((b >> left) & 1 == 1));
            c.count("positions checked", 1);
        }
    }
    c.sig_bytes(v);
    if v.len() > 4 {
        c.nontrivial();
    }
}

fn main() {
    vh::check("C16", "exploration",
        "case = byte stream; every accessor is compared with a computation from the raw input before every bit; non-trivial when longer than 4 bytes (cache has filled); distinct by stream",
        |r| {
            let n = r.n(30_000, 1_000_000);
            r.cases("streams", n, |c| {
                let len = c.rng.log_uniform(600) as usize - 1;
                let (k, v) = data::any(len, &mut c.rng);
                c.desc(format!("{} {}: {}", k, v.len(), data::hex(&v)));
                run(c, &v);
            });
            r.once("fixed-positions", |c| {
                // every value of every one of the last four bytes, from the first byte on
                for slot in 0..4 {
                    for x in 0..=255u8 {
                        for fill in [0u8, 255, 0x80, 1, 0x5a] {
                            let mut v = vec![fill; 6];
                            v[slot] = x;
                            run(c, &v);
                        }
                    }
                }
            });
            let n = r.n(64, 256);
            r.cases("byte-pairs", n, |c| {
                // together: every pair of adjacent bytes, exhaustively
                for a in 0..=255u8 {
                    let b = (c.index * 4) as u8;
                    let mut v = vec![];
                    for d in 0..4u8 {
                        v.extend([a, b.wrapping_add(d), 0, 255 - a, a ^ b]);
                    }
                    run(c, &v);
                }
            });
            r.exhaustive("all 65536 pairs of adjacent bytes at every bit position");
            let n = r.n(20_000, 1_000_000);
            r.cases("fnv", n, |c| {
                let len = c.rng.log_uniform(200) as usize - 1;
                let (_, v) = data::any(len, &mut c.rng);
                let feed = || {
                    let mut h = Fnv1A::new();
                    v.iter().for_each(|&b| h.mix_byte(b));
                    h
                };
                let w = fnv(&v);
                ensure!(c, feed().into_u64() == w, "FNV-1a of {} is {:x}, must be {:x}", data::hex(&v), feed().into_u64(), w);
                ensure!(c, feed().into_u32() == fold32(w), "32-bit fold of {:x} is {:x}", w, feed().into_u32());
                ensure!(c, feed().into_u16() == fold16(w), "16-bit fold of {:x} is {:x}", w, feed().into_u16());
                c.count("hashes checked", 1);
                c.sig(w);
                c.nontrivial();
            });
            r.assume("bytes before the start of the input are taken as zero");
            r.require("positions checked", 100_000);
            r.require("hashes checked", 1_000);
        });
}
