//! C05: the suffix tree is well formed, exactly as large as the window
//! contents imply, and its nodes are recycled, under any sliding and draining.
use demixer::bit::Bit;
use demixer::history::tree::direction::Direction;
use demixer::history::tree::node::CostTrackers;
use demixer::history::tree::nodes::NodeIndex;
use demixer::history::tree::{TreeHistorySource, TreeState};
use demixer::history::{CollectedContextStates, HistorySource};
use demixer::lut::LookUpTables;
use std::collections::HashMap;
use vh::{ensure, Case};

struct View<'b> {
    data: &'b [u8], // known bytes: absolute positions 0..data.len()
    ws: usize,
    start_raw: usize,
    max: usize,
}

impl<'b> View<'b> {
    fn abs(&self, raw: usize) -> usize {
        (raw + self.max - self.start_raw) % self.max + self.ws
    }
    fn bit(&self, suffix: usize, depth: usize) -> Option<bool> {
        let p = suffix + depth / 8;
        self.data.get(p).map(|b| (b >> (7 - depth % 8)) & 1 == 1)
    }
}

/// Distinct contexts followed by both bit values inside the window.
fn branching_strings(data: &[u8], ws: usize, order: usize) -> usize {
    let mut total = 0;
    // group positions by equal preceding k bytes, refine as k grows
    let mut groups: Vec<Vec<usize>> = vec![(ws..data.len()).collect()];
    for k in 0..=order {
        let mut next: Vec<Vec<usize>> = vec![];
        for g in &groups {
            for bi in (0..8).rev() {
                let mut m: HashMap<u8, u8> = HashMap::new();
                for &p in g {
                    let key = (data[p] as u16 >> (bi + 1)) as u8;
                    *m.entry(key).or_insert(0) |= 1 << ((data[p] >> bi) & 1);
                }
                total += m.values().filter(|&&v| v == 3).count();
            }
            let mut m: HashMap<u8, Vec<usize>> = HashMap::new();
            for &p in g {
                if p >= k + 1 && p - k - 1 >= ws {
                    m.entry(data[p - k - 1]).or_default().push(p);
                }
            }
            next.extend(m.into_values().filter(|g| g.len() > 1));
        }
        groups = next;
        if groups.is_empty() {
            break;
        }
    }
    total
}

fn inspect(c: &mut Case, src: &TreeHistorySource, data: &[u8], ws: usize, order: usize, deep: bool) {
    let tree = &src.tree;
    let live = tree.nodes().live_nodes_count();
    let size = tree.window.size();
    ensure!(c, size <= tree.window.max_size(), "window holds {} of {}", size, tree.window.max_size());
    ensure!(c, live <= size.saturating_sub(1), "{} live nodes for {} bytes in the window", live, size);
    c.max("live nodes", live as f64);
    if deep {
        let want = branching_strings(data, ws, order);
        ensure!(c, live == want, "{} live nodes, the {} bytes in the window have {} branching contexts", live, size, want);
        c.count("node counts matched with the window contents", 1);
    }
    if tree.tree_state() == TreeState::Degenerate {
        let inside = &data[ws.min(data.len())..];
        ensure!(c, inside.iter().all(|b| *b == inside[0]), "tree claims no branching but window holds {}", vh::data::hex(inside));
        c.count("degenerate trees inspected", 1);
        return;
    }
    let v = View { data, ws, start_raw: tree.window.start().raw(), max: tree.window.max_size() };
    let mut leaves_seen: HashMap<usize, usize> = HashMap::new();
    let mut internal = 0usize;
    // depth-first, collecting leaves of each subtree
    fn walk(c: &Case, src: &TreeHistorySource, v: &View, n: NodeIndex, min_depth: usize, max_depth: usize,
            internal: &mut usize, guard: usize, out: &mut Vec<usize>) {
        let node = &src.tree.nodes()[n];
        *internal += 1;
        if *internal > guard {
            c.fail("more nodes reachable than alive: a cycle or a shared node");
        }
        let d = node.depth();
        ensure!(c, d >= min_depth && d <= max_depth, "node depth {} outside {}..{}", d, min_depth, max_depth);
        ensure!(c, node.is_valid(), "an unusable node is reachable");
        ensure!(c, node.left_count() > 0 && node.right_count() > 0 && node.left_count() <= 1000 && node.right_count() <= 1000,
            "branch counts {} and {}", node.left_count(), node.right_count());
        let first = out.len();
        for (dir, one) in [(Direction::Left, false), (Direction::Right, true)] {
            let from = out.len();
            let ch = node.child(dir);
            if ch.is_node_index() {
                walk(c, src, v, ch.to_node_index(), d + 1, max_depth, internal, guard, out);
            } else {
                out.push(v.abs(ch.to_window_index().raw()));
            }
            for &s in &out[from..] {
                ensure!(c, v.bit(s, d).map_or(true, |b| b == one),
                    "suffix at {} lies in the {} branch at depth {} but has the other bit", s, if one { "1" } else { "0" }, d);
            }
        }
        // everything below shares the first d bits
        let rep = *out[first..].iter().min().unwrap();
        for &s in &out[first..] {
            let bytes = (d / 8).min(v.data.len().saturating_sub(s)).min(v.data.len().saturating_sub(rep));
            let mut same = v.data[rep..rep + bytes] == v.data[s..s + bytes];
            if bytes == d / 8 {
                for b in bytes * 8..d {
                    same &= match (v.bit(rep, b), v.bit(s, b)) { (Some(x), Some(y)) => x == y, _ => true };
                }
            }
            ensure!(c, same, "suffixes at {} and {} share a node of depth {} but differ above it", rep, s, d);
        }
    }
    let mut out = vec![];
    walk(c, src, &v, tree.get_root_node_index(), 0, order * 8 + 7, &mut internal, live, &mut out);
    ensure!(c, internal == live, "{} nodes reachable, {} alive", internal, live);
    ensure!(c, out.len() == live + 1, "{} leaves for {} nodes", out.len(), live);
    for s in out {
        ensure!(c, s >= ws && s <= data.len(), "leaf {} outside the window {}..={}", s, ws, data.len());
        *leaves_seen.entry(s).or_insert(0) += 1;
    }
    ensure!(c, leaves_seen.values().all(|&n| n == 1), "a suffix has two leaves");
    c.count("proper trees inspected", 1);
    c.count("leaves inspected", leaves_seen.len() as u64);
    c.seen("tree shapes (nodes, leaves, window)", vh::mix(vh::mix(live as u64, leaves_seen.keys().max().copied().unwrap_or(0) as u64), ws as u64));
}

struct Plan {
    window: usize,
    order: usize,
    shift: usize,
    drain: f64,
    drain_mid: f64,
}

fn drive(c: &mut Case, data: &[u8], p: &Plan, luts: &LookUpTables) {
    let mut src = c.guarded("construction", || TreeHistorySource::new_special(p.window, p.order, p.shift, luts));
    let mut col = CollectedContextStates::new(p.order);
    let mut ws = 0usize;
    for (at, &byte) in data.iter().enumerate() {
        if p.drain > 0.0 && c.rng.chance(p.drain) {
            let size = src.tree.window.size();
            let n = if c.rng.chance(0.2) { size } else { c.rng.usize(0, size) };
            for _ in 0..n {
                c.guarded(&format!("removing the oldest byte before byte {}", at), ||
                    src.tree.remove_leftmost_suffix(&mut src.active_contexts));
                ws += 1;
            }
            c.count("drains between bytes", 1);
            if n == size {
                ensure!(c, src.tree.nodes().live_nodes_count() == 0, "{} nodes left in an emptied tree", src.tree.nodes().live_nodes_count());
                c.count("trees emptied", 1);
            }
        }
        c.guarded(&format!("starting byte {}", at), || src.start_new_byte());
        ws = ws.max((at + 1).saturating_sub(p.window));
        ensure!(c, src.tree.window.size() == at + 1 - ws, "window holds {} bytes, expected {}", src.tree.window.size(), at + 1 - ws);
        if p.drain_mid > 0.0 && c.rng.chance(p.drain_mid) {
            let n = c.rng.usize(0, at - ws);
            for _ in 0..n {
                c.guarded(&format!("removing the oldest byte inside byte {}", at), ||
                    src.tree.remove_leftmost_suffix(&mut src.active_contexts));
                ws += 1;
            }
            c.count("drains before the first bit", 1);
        }
        c.guarded(&format!("the tree's own integrity check at byte {}", at), || src.check_integrity_on_next_byte());
        let deep = p.window <= 40 || at % 7 == 0;
        inspect(c, &src, &data[..at], ws, p.order, deep);
        for bi in (0..8).rev() {
            col.reset();
            c.guarded(&format!("gathering at byte {} bit {}", at, bi), || src.gather_history_states(&mut col));
            let nodes = col.items().iter().filter(|x| x.is_for_node()).count();
            let feed = vec![CostTrackers::DEFAULT; nodes];
            c.guarded(&format!("processing byte {} bit {}", at, bi), || src.process_input_bit(Bit::from((byte >> bi) & 1 == 1), &feed));
        }
    }
    // drain everything: nothing may stay behind
    let size = src.tree.window.size();
    for _ in 0..size {
        c.guarded("draining", || src.tree.remove_leftmost_suffix(&mut src.active_contexts));
    }
    ensure!(c, src.tree.window.size() == 0 && src.tree.nodes().live_nodes_count() == 0,
        "a drained tree keeps {} bytes and {} nodes", src.tree.window.size(), src.tree.nodes().live_nodes_count());
    c.count("bytes", data.len() as u64);
    c.count("bytes removed", ws as u64 + size as u64);
    c.sig_bytes(data);
    c.sig((p.window as u64) << 8 | p.order as u64);
    if data.len() > 2 { c.nontrivial(); }
}

fn main() {
    vh::check("C05", "exploration",
        "case = input driven through the tree with a window, order, buffer phase and random drains; after every byte the whole tree is walked and compared with the window contents; non-trivial when more than 2 bytes; distinct by input, window and order",
        |r| {
            let luts = LookUpTables::new();
            let n = r.n(1, 3);
            r.cases("default-window", n, |c| {
                // the window of the shipped predictor, filled and slid
                let (window, order) = (10_000_000, 20);
                let len = window + 60_000;
                let data: Vec<u8> = match c.index {
                    0 => (0..len).map(|_| c.rng.u8()).collect(),
                    k => vh::data::by_kind(["copy-mutate", "binary-alphabet"][k as usize - 1], len, &mut c.rng),
                };
                c.desc(format!("window {} order {}, {} bytes", window, order, len));
                c.sig_bytes(&data[..4096]);
                c.nontrivial();
                let mut src = c.guarded("construction", || TreeHistorySource::new(window, order, &luts));
                let mut col = CollectedContextStates::new(order);
                for (at, &byte) in data.iter().enumerate() {
                    c.guarded(&format!("starting byte {}", at), || src.start_new_byte());
                    let size = (at + 1).min(window);
                    ensure!(c, src.tree.window.size() == size, "window holds {} bytes, expected {}", src.tree.window.size(), size);
                    if at & 0xfff == 0 || at + 1 >= window {
                        let live = src.tree.nodes().live_nodes_count();
                        ensure!(c, live < size, "{} live nodes for {} bytes in the window", live, size);
                    }
                    for bi in (0..8).rev() {
                        col.reset();
                        c.guarded(&format!("gathering at byte {} bit {}", at, bi), || src.gather_history_states(&mut col));
                        let nodes = col.items().iter().filter(|x| x.is_for_node()).count();
                        let feed = [CostTrackers::DEFAULT; 21];
                        c.guarded(&format!("processing byte {} bit {}", at, bi), || src.process_input_bit(Bit::from((byte >> bi) & 1 == 1), &feed[..nodes]));
                    }
                }
                c.guarded("starting a byte", || src.start_new_byte());
                c.guarded("the tree's own integrity check", || src.check_integrity_on_next_byte());
                inspect(c, &src, &data, len + 1 - window, order, false);
                c.count("bytes slid through the default window", (len - window) as u64);
            });
            let n = r.n(10, 200);
            r.cases("mass-removal", n, |c| {
                // windows that fill with nodes, lose nearly all of them, and
                // fill again with the recycled ones
                let window = if c.index == 0 { 70_000 } else { c.rng.usize(1_000, 6_000) };
                let order = *c.rng.pick(&[1, 2, 3, 5, 20]);
                let shift = c.rng.usize(0, window - 1);
                let mut data: Vec<u8> = vec![];
                for round in 0..if c.index == 0 { 2 } else { 4 } {
                    let n = window + c.rng.usize(0, window / 4);
                    data.extend((0..n).map(|_| c.rng.u8()));
                    let slack = if c.rng.bool() { 3 } else { window / 2 };
                    let n = window - c.rng.usize(0, slack);
                    let a = c.rng.u8();
                    match (c.index + round) % 3 {
                        0 => data.extend((0..n).map(|_| a)),
                        1 => data.extend((0..n).map(|i| a.wrapping_add(i as u8 & 3))),
                        _ => data.extend(vh::data::by_kind("binary-alphabet", n, &mut c.rng)),
                    }
                }
                let n = window + c.rng.usize(0, window / 4);
                data.extend((0..n).map(|_| c.rng.u8()));
                c.desc(format!("window {} order {} shift {}, {} bytes", window, order, shift, data.len()));
                c.sig_bytes(&data[..500]); c.sig(window as u64);
                c.nontrivial();
                let mut src = c.guarded("construction", || TreeHistorySource::new_special(window, order, shift, &luts));
                let mut col = CollectedContextStates::new(order);
                let (mut top, mut removed) = (0, 0u64);
                let every = (window * 8 / 40).max(50);
                let feed = [CostTrackers::DEFAULT; 21];
                for (at, &byte) in data.iter().enumerate() {
                    c.guarded(&format!("starting byte {}", at), || src.start_new_byte());
                    let ws = (at + 1).saturating_sub(window);
                    ensure!(c, src.tree.window.size() == at + 1 - ws, "window holds {} bytes, expected {}", src.tree.window.size(), at + 1 - ws);
                    let live = src.tree.nodes().live_nodes_count();
                    ensure!(c, live < window, "{} live nodes for {} bytes in the window", live, window);
                    if at % every == 0 || at + 1 == data.len() {
                        c.guarded(&format!("the tree's own integrity check at byte {}", at), || src.check_integrity_on_next_byte());
                        inspect(c, &src, &data[..at], ws, order, true);
                    }
                    if live > top { top = live; }
                    if live + 1000 < top { removed += (top - live) as u64; top = live; }
                    for bi in (0..8).rev() {
                        col.reset();
                        c.guarded(&format!("gathering at byte {} bit {}", at, bi), || src.gather_history_states(&mut col));
                        let nodes = col.items().iter().filter(|x| x.is_for_node()).count();
                        c.guarded(&format!("processing byte {} bit {}", at, bi), || src.process_input_bit(Bit::from((byte >> bi) & 1 == 1), &feed[..nodes]));
                    }
                }
                let size = src.tree.window.size();
                for _ in 0..size {
                    c.guarded("draining", || src.tree.remove_leftmost_suffix(&mut src.active_contexts));
                }
                ensure!(c, src.tree.window.size() == 0 && src.tree.nodes().live_nodes_count() == 0,
                    "a drained tree keeps {} bytes and {} nodes", src.tree.window.size(), src.tree.nodes().live_nodes_count());
                c.count("nodes lost in falls by over 1000 nodes", removed);
                c.max("largest fall", removed as f64);
            });
            let n = r.n(12_000, 300_000);
            r.cases("tiny-windows", n, |c| {
                let window = c.rng.usize(1, 24);
                let len = c.rng.usize(1, window * 10);
                let (k, data) = vh::data::any(len, &mut c.rng);
                let p = Plan { window, order: *c.rng.pick(&[0, 1, 2, 3, 5, 8, 20, 63]), shift: c.rng.usize(0, window - 1),
                    drain: *c.rng.pick(&[0.0, 0.0, 0.02, 0.2]), drain_mid: *c.rng.pick(&[0.0, 0.0, 0.05]) };
                c.desc(format!("{} {} bytes window {} order {} shift {} drains {}/{} data {}", k, len, window, p.order, p.shift, p.drain, p.drain_mid, vh::data::hex(&data)));
                drive(c, &data, &p, &luts);
            });
            let n = r.n(1200, 30_000);
            r.cases("medium-windows", n, |c| {
                let window = c.rng.usize(25, 300);
                let len = window + c.rng.usize(1, 3 * window);
                let (k, data) = vh::data::any(len, &mut c.rng);
                let p = Plan { window, order: *c.rng.pick(&[0, 1, 2, 3, 5, 8, 20, 63]), shift: c.rng.usize(0, window - 1),
                    drain: *c.rng.pick(&[0.0, 0.0, 0.01]), drain_mid: *c.rng.pick(&[0.0, 0.0, 0.01]) };
                c.desc(format!("{} {} bytes window {} order {} shift {} drains {}/{} data {}", k, len, window, p.order, p.shift, p.drain, p.drain_mid, vh::data::hex(&data)));
                drive(c, &data, &p, &luts);
            });
            r.require("bytes slid through the default window", 10_000);
            r.require("nodes lost in falls by over 1000 nodes", 10_000);
            r.require("proper trees inspected", 10_000);
            r.require("node counts matched with the window contents", 10_000);
        });
}
