//! C06: the circular window behaves like a queue of bytes.
use demixer::bit::Bit;
use demixer::history::window::{InputWindow, WindowIndex};
use std::cell::RefCell;
use std::collections::VecDeque;
use vh::{ensure, Case};

struct Model {
    q: VecDeque<u8>,
}

fn at(w: &InputWindow, i: usize) -> WindowIndex {
    w.index_add(w.start(), i)
}

fn compare(c: &mut Case, w: &InputWindow, m: &Model, max: usize) {
    let n = m.q.len();
    ensure!(c, w.size() == n && w.max_size() == max, "size {} of {}, expected {} of {}", w.size(), w.max_size(), n, max);
    for i in 0..n {
        let x = at(w, i);
        ensure!(c, x.raw() < max, "index {} in a buffer of {}", x.raw(), max);
        ensure!(c, w[x] == m.q[i], "byte {} of {} is {:02x}, expected {:02x}", i, n, w[x], m.q[i]);
        ensure!(c, w.index_diff(x, w.start()) == i, "distance {} reported as {}", i, w.index_diff(x, w.start()));
        ensure!(c, w.index_subtract(x, i) == w.start(), "stepping back {} from byte {}", i, i);
        for b in 0..8 {
            ensure!(c, w.get_bit(x, b).is_1() == ((m.q[i] >> b) & 1 == 1), "bit {} of byte {}", b, i);
        }
    }
    if n > 0 {
        ensure!(c, w.cursor() == at(w, n - 1), "cursor is not at the newest byte");
        let (i, j) = (c.rng.usize(0, n - 1), c.rng.usize(0, n - 1));
        let (x, y) = (at(w, i), at(w, j));
        ensure!(c, w.index_is_smaller(x, y) == (i < j), "order of bytes {} and {} of {}", i, j, n);
        ensure!(c, w.index_is_smaller_or_equal(x, y) == (i <= j), "weak order of bytes {} and {} of {}", i, j, n);
        if i >= j {
            ensure!(c, w.index_diff(x, y) == i - j, "distance from {} to {}", j, i);
        }
        let b = c.rng.usize(0, 7);
        ensure!(c, w.bytes_differ_on(x, y, b) == ((m.q[i] ^ m.q[j]) >> b & 1 == 1), "difference of bytes {} and {} in bit {}", i, j, b);
        if i > 0 {
            ensure!(c, w.index_decrement(x) == at(w, i - 1), "byte before {}", i);
            ensure!(c, w.index_increment(at(w, i - 1)) == x, "byte after {}", i - 1);
        }
        // equal-prefix comparison inside the window
        for _ in 0..2 {
            let (i, j) = (c.rng.usize(0, n - 1), c.rng.usize(0, n - 1));
            let room = n - 1 - i.max(j);
            let len = if c.rng.bool() { room } else { c.rng.usize(0, room) };
            let bi = c.rng.usize(0, 7);
            let mut want = (0..len).all(|k| m.q[i + k] == m.q[j + k]);
            if bi < 7 {
                want &= (m.q[i + len] ^ m.q[j + len]) >> (bi + 1) == 0;
            }
            let (x, y) = (at(w, i), at(w, j));
            let got = w.compare_for_equal_prefix(x, y, bi, len);
            ensure!(c, got == want, "bytes from {} and {} compared over {} bytes and bits above {}: {} expected {}", i, j, len, bi, got, want);
            let wraps = x.raw().max(y.raw()) + len >= max;
            c.count("prefix comparisons", 1);
            c.count("prefix comparisons across the wrap point", (wraps && len > 0) as u64);
            c.count("equal prefixes of at least 2 bytes", (want && len > 1 && i != j) as u64);
        }
    }
    let seen = RefCell::new(vec![]);
    c.guarded(&format!("visiting all suffixes of {} bytes, start {} cursor {}", n, w.start().raw(), w.cursor().raw()),
        || w.for_each_suffix(|i| seen.borrow_mut().push(i.raw())));
    let want: Vec<usize> = (0..n).map(|i| at(w, i).raw()).collect();
    let mut got = seen.into_inner();
    got.sort();
    let mut want = want;
    want.sort();
    ensure!(c, got == want, "suffixes visited {:?}, expected {:?}", got, want);
    c.count("states compared", 1);
    c.seen("(capacity, start, size) phases", (max as u64) << 40 | (w.start().raw() as u64) << 20 | n as u64);
}

fn drive(c: &mut Case, max: usize, shift: usize, steps: usize, grow: f64, symbols: u64) {
    c.desc(format!("capacity {} phase {} steps {} growth {:.2} symbols {}", max, shift, steps, grow, symbols));
    let mut w = c.guarded("construction", || InputWindow::new(max, shift));
    let mut m = Model { q: VecDeque::new() };
    compare(c, &w, &m, max);
    for _ in 0..steps {
        let n = m.q.len();
        if n < max && (n == 0 && max > 0 && c.rng.chance(0.9) || c.rng.chance(grow)) {
            c.guarded("appending", || w.advance_cursor());
            m.q.push_back(0);
            let byte = c.rng.below(symbols) as u8;
            if c.rng.bool() {
                c.guarded("writing a byte", || w.set_byte_at_cursor(byte));
                *m.q.back_mut().unwrap() = byte;
            } else {
                for b in (0..8).rev() {
                    let bit = byte >> b & 1 == 1;
                    c.guarded("writing a bit", || w.set_bit_at_cursor(Bit::from(bit), b));
                    let x = m.q.back_mut().unwrap();
                    *x = *x & !(1 << b) | (bit as u8) << b;
                    ensure!(c, w[w.cursor()] == *x, "byte {:02x} after writing bit {}", w[w.cursor()], b);
                }
            }
        } else if n == max && c.rng.chance(0.1) {
            ensure!(c, vh::rejects(|| w.advance_cursor()), "a full window of {} accepted one more byte", max);
            c.count("overfills refused", 1);
            // a refused call must not have changed anything
        } else if n > 0 {
            if c.rng.chance(0.3) {
                // rewrite the newest byte, or single bits of it, in any order
                for _ in 0..c.rng.usize(1, 4) {
                    let x = m.q.back_mut().unwrap();
                    if c.rng.chance(0.2) {
                        *x = c.rng.u8();
                        let y = *x;
                        c.guarded("rewriting a byte", || w.set_byte_at_cursor(y));
                    } else {
                        let (b, bit) = (c.rng.usize(0, 7), c.rng.bool());
                        *x = *x & !(1 << b) | (bit as u8) << b;
                        c.guarded("rewriting a bit", || w.set_bit_at_cursor(Bit::from(bit), b));
                    }
                }
                compare(c, &w, &m, max);
                c.count("rewrites", 1);
                continue;
            }
            c.guarded("dropping the oldest byte", || w.advance_start());
            m.q.pop_front();
        } else {
            ensure!(c, vh::rejects(|| w.advance_start()), "an empty window dropped a byte");
            c.count("underflows refused", 1);
        }
        compare(c, &w, &m, max);
    }
    c.sig((max as u64) << 32 | (shift as u64) << 16 | steps as u64);
    c.sig(c.index);
    if steps > 2 { c.nontrivial(); }
}

/// Tens of thousands of bytes with long repetitions: spot checks only.
fn huge(c: &mut Case) {
    let max = match c.index {
        // larger than 16, 20, 21, 22, 23 and 24 bits can index
        0 => (1 << 24) + 5,
        1 => 10_000_000,
        2 => 3_000_000,
        _ => *c.rng.pick(&[3_000usize, 65_535, 65_536, 65_537, 140_000, 300_000, 1_100_000]) + c.rng.usize(0, 3),
    };
    let rounds = if c.index < 2 { 2 } else { 4 };
    let shift = *c.rng.pick(&[0, 1, max / 2, max - 1]);
    let period = if c.index < 3 { c.rng.usize(60_000, 70_000) } else { c.rng.log_uniform(70_000) as usize };
    c.desc(format!("capacity {} phase {} period {}", max, shift, period));
    let mut w = c.guarded("construction", || InputWindow::new(max, shift));
    let unit: Vec<u8> = (0..period).map(|_| c.rng.u8()).collect();
    let mut q: VecDeque<u8> = VecDeque::new();
    let mut fed = 0usize;
    let noise = *c.rng.pick(&[0.0, 3e-6, 3e-5]);
    // several rounds of: drop some, append until full, look around
    for round in 0..rounds {
        if round > 0 {
            for _ in 0..c.rng.usize(1, max) { c.guarded("dropping", || w.advance_start()); q.pop_front(); }
        }
        while q.len() < max {
            let mut b = unit[fed % period];
            if c.rng.chance(noise) { b ^= 1 << c.rng.below(8); }
            fed += 1;
            c.guarded("appending", || { w.advance_cursor(); w.set_byte_at_cursor(b) });
            q.push_back(b);
        }
        let n = max;
        for _ in 0..200 {
            let i = c.rng.usize(0, n - 1);
            let j = if c.rng.chance(0.7) && period < n { let k = c.rng.usize(0, n / period); (i % period + k * period).min(n - 1) } else { c.rng.usize(0, n - 1) };
            let (x, y) = (at(&w, i), at(&w, j));
            ensure!(c, w[x] == q[i] && w[y] == q[j], "bytes {} and {} of {}", i, j, n);
            ensure!(c, w.index_is_smaller(x, y) == (i < j), "order of bytes {} and {} of {}", i, j, n);
            ensure!(c, i < j || w.index_diff(x, y) == i - j, "distance from {} to {} of {}", j, i, n);
            let room = n - 1 - i.max(j);
            let mut same = 0;
            while same < room && q[i + same] == q[j + same] { same += 1; }
            let len = match c.rng.below(4) { 0 => room, 1 => same, 2 => (same + 1).min(room), _ => c.rng.usize(0, room) };
            let bi = c.rng.usize(0, 7);
            let mut want = len <= same;
            if bi < 7 { want &= (q[i + len] ^ q[j + len]) >> (bi + 1) == 0; }
            let got = w.compare_for_equal_prefix(x, y, bi, len);
            ensure!(c, got == want, "bytes from {} and {} compared over {} bytes and bits above {}: {} expected {}", i, j, len, bi, got, want);
            c.count("prefix comparisons", 1);
            c.count("equal prefixes of at least 255 bytes", (want && i != j && len >= 255) as u64);
            c.count("equal prefixes of at least 65536 bytes", (want && i != j && len >= 65536) as u64);
            // a difference in the partial byte of an otherwise equal prefix
            if same < room && same >= 255 {
                let d = (q[i + same] ^ q[j + same]) as u32;
                for bi in 0..8u32 {
                    let want = d >> (bi + 1) == 0;
                    ensure!(c, w.compare_for_equal_prefix(x, y, bi as usize, same) == want, "bytes from {} and {} compared over {} bytes and bits above {}: expected {}", i, j, same, bi, want);
                }
            }
        }
    }
    c.max("largest window", max as f64);
    c.sig(max as u64); c.sig(period as u64); c.sig(c.index);
    c.nontrivial();
}

fn main() {
    vh::check("C06", "exploration",
        "case = random operation sequence on one window compared after every step with a byte queue; non-trivial with more than 2 steps; distinct by capacity, phase and sequence",
        |r| {
            let n = r.n(20_000, 400_000);
            r.cases("random-operations", n, |c| {
                let max = if c.rng.bool() { c.rng.usize(1, 8) } else { c.rng.usize(1, 70) };
                let shift = c.rng.usize(0, max - 1);
                let steps = c.rng.usize(1, 5 * max + 20);
                let grow = *c.rng.pick(&[0.3, 0.5, 0.7, 0.95, 1.0]);
                let symbols = *c.rng.pick(&[1, 2, 2, 3, 256]);
                drive(c, max, shift, steps, grow, symbols);
            });
            let n = r.n(60, 2000);
            r.cases("large-windows", n, |c| {
                let max = c.rng.usize(200, 1500);
                let shift = c.rng.usize(0, max - 1);
                drive(c, max, shift, 2000, 0.8, 2);
            });
            let n = r.n(64, 600);
            r.cases("huge-windows", n, |c| huge(c));
            // every capacity up to 9, every phase: fill, empty, refill
            r.cases("all-phases", 45, |c| {
                let mut i = c.index as usize;
                let mut max = 1;
                while i >= max { i -= max; max += 1; }
                for grow in [1.0, 0.0, 0.5, 0.8] {
                    drive(c, max, i, 12 * max, grow, 2);
                }
            });
            r.exhaustive("capacities 1..9 at every starting phase");
            r.require("prefix comparisons across the wrap point", 10_000);
            r.require("equal prefixes of at least 255 bytes", 1000);
            r.require("equal prefixes of at least 65536 bytes", 50);
            r.require("equal prefixes of at least 2 bytes", 1000);
        });
}
