//! Independent models of what history sources must report, computed from the
//! raw input only.
use demixer::bit::Bit;
use demixer::estimators::decelerating::DeceleratingEstimator;
use demixer::history::state::bits_runs::BitsRunsTracker;
use demixer::history::tree::node::CostTrackers;
use demixer::history::ContextState;
use demixer::lut::LookUpTables;
use std::collections::HashMap;

pub const CAP: usize = 1000;

pub struct Hist {
    pub bits: Vec<bool>,
    /// lengths of the last three runs of equal bits, newest first
    runs: (usize, usize, usize),
    mixed: bool,
    pub last_pos: usize,
    est: DeceleratingEstimator,
    fed: Option<CostTrackers>,
}

/// Whole-history model: exact contexts (interned, no hashing of contents),
/// every following bit of every context is kept.
pub struct FullModel<'a> {
    pub luts: &'a LookUpTables,
    pub data: Vec<u8>,
    pub max_order: usize,
    trie: HashMap<(u32, u8), u32>,
    hists: HashMap<(u32, u8), Hist>,
    ids: Vec<u32>,
    partial: u8,
    pub bit_index: usize,
}

pub fn run_lengths(bits: &[bool]) -> (usize, usize, usize) {
    let mut it = bits.iter().rev().peekable();
    let mut lens = [0usize; 3];
    for l in lens.iter_mut() {
        if let Some(&&b) = it.peek() {
            while it.peek() == Some(&&b) {
                it.next();
                *l += 1;
            }
        }
    }
    (lens[0], lens[1], lens[2])
}

pub fn recent_raw(bits: &[bool]) -> u16 {
    let from = bits.len().saturating_sub(15);
    bits[from..].iter().fold(1u16, |a, &b| (a << 1) | b as u16)
}

impl<'a> FullModel<'a> {
    pub fn new(max_order: usize, luts: &'a LookUpTables) -> Self {
        FullModel {
            luts, data: vec![], max_order, trie: HashMap::new(), hists: HashMap::new(),
            ids: vec![], partial: 1, bit_index: 7,
        }
    }

    pub fn start_new_byte(&mut self) {
        let cur = self.data.len();
        self.partial = 1;
        self.bit_index = 7;
        self.ids.clear();
        let mut id = 0u32;
        self.ids.push(id);
        for k in 1..=self.max_order.min(cur) {
            let next = self.trie.len() as u32 + 1;
            id = *self.trie.entry((id, self.data[cur - k])).or_insert(next);
            self.ids.push(id);
        }
    }

    /// contexts of orders 0.. that occurred before
    pub fn contexts(&self) -> Vec<&Hist> {
        self.ids.iter().map_while(|&id| self.hists.get(&(id, self.partial))).collect()
    }

    pub fn node_count(&self) -> usize {
        self.contexts().iter().take_while(|h| is_node(h)).count()
    }

    /// None when `got` is what the input implies
    pub fn mismatch(&self, got: &[ContextState]) -> Option<String> {
        let want = self.contexts();
        if want.len() != got.len() {
            return Some(format!("{} contexts reported, input implies {}", got.len(), want.len()));
        }
        let cur = self.data.len();
        for (order, (h, g)) in want.iter().zip(got).enumerate() {
            if let Some(m) = check_state(h, g, cur, self.luts) {
                return Some(format!("order {} (byte {}, bit {}): {}; reported {:?}", order, cur, self.bit_index, m, g));
            }
        }
        None
    }

    /// `feed`: cost records given for the branching contexts
    pub fn push_bit(&mut self, bit: bool, feed: &[CostTrackers]) {
        let cur = self.data.len();
        let luts = self.luts;
        for (order, &id) in self.ids.iter().enumerate() {
            let h = self.hists.entry((id, self.partial)).or_insert_with(|| Hist {
                bits: vec![], runs: (0, 0, 0), mixed: false, last_pos: 0, est: DeceleratingEstimator::new(), fed: None,
            });
            if is_node(h) {
                h.fed = Some(feed[order].clone());
            } else if h.bits.last().map_or(false, |&b| b != bit) {
                let c = luts.cost_trackers_lut().for_new_node(h.bits.len().min(CAP) as u16);
                h.fed = Some(CostTrackers::new(c, c));
            }
            // only the first thousand repetitions of a deterministic context
            // are counted, so only they train its estimate
            let was_node = is_node(h);
            let turning = !was_node && h.bits.last().map_or(false, |&b| b != bit);
            if was_node || turning || h.bits.len() < CAP {
                h.est.update(Bit::from(bit), luts.d_estimator_rates());
            }
            match h.bits.last() {
                Some(&b) if b != bit => {
                    h.mixed = true;
                    h.runs = (1, h.runs.0, h.runs.1);
                }
                _ => h.runs.0 += 1,
            }
            h.bits.push(bit);
            h.last_pos = cur;
        }
        self.partial = (self.partial << 1) | bit as u8;
        if self.bit_index == 0 {
            self.data.push(self.partial);
            self.bit_index = 7;
        } else {
            self.bit_index -= 1;
        }
    }
}

pub fn is_node(h: &Hist) -> bool {
    h.mixed
}

fn check_state(h: &Hist, g: &ContextState, cur: usize, luts: &LookUpTables) -> Option<String> {
    let distance = cur - h.last_pos;
    let count = h.bits.len().min(CAP) as u16;
    if g.last_occurrence_distance() != distance {
        return Some(format!("last occurrence is {} back", distance));
    }
    if g.occurrence_count() != count {
        return Some(format!("occurrence count must be {}", count));
    }
    match g {
        &ContextState::ForEdge { occurrence_count, repeated_bit, .. } => {
            if is_node(h) {
                return Some("both bits followed this context".into());
            }
            if occurrence_count != count || repeated_bit.is_1() != h.bits[0] {
                return Some(format!("bit {} repeated {} times", h.bits[0] as u8, count));
            }
            let _ = luts;
        }
        ContextState::ForNode { probability_estimator, recent_bits, bits_runs, cost_trackers, .. } => {
            if !is_node(h) {
                return Some("only one bit value followed this context".into());
            }
            if *probability_estimator != h.est {
                return Some(format!("estimate must be {:?}", h.est));
            }
            // recorded recent bits: compare through observable accessors and as a whole
            let raw = recent_raw(&h.bits);
            let want7 = if raw >= 128 { 128 | (raw & 127) } else { raw } as u8;
            if recent_bits.last_7_bits() != want7 {
                return Some(format!("recent bits must end in {:b}", want7));
            }
            let ones = raw.count_ones() as u8 - 1;
            let zeros = 15 - raw.leading_zeros() as u8 - ones;
            if recent_bits.histogram() != (ones << 4 | zeros) {
                return Some(format!("recent bits must hold {} ones and {} zeros", ones, zeros));
            }
            if *recent_bits != demixer::history::state::recent_bits::RecentBitsHistory::new_unchecked(raw) {
                return Some(format!("recent bits must be {:b}", raw));
            }
            let (a, b, c) = h.runs;
            if let Some(m) = runs_mismatch(bits_runs, *h.bits.last().unwrap(), a, b, c) {
                return Some(m);
            }
            if let Some(f) = &h.fed {
                if f != cost_trackers {
                    return Some(format!("cost records must be {:?}", f));
                }
            }
        }
    }
    None
}

pub fn runs_mismatch(t: &BitsRunsTracker, last: bool, a: usize, b: usize, c: usize) -> Option<String> {
    let (a, b, c) = (a.min(CAP), b.min(CAP), c.min(CAP));
    if t.last_bit().is_1() != last
        || t.last_bit_run_length() as usize != a
        || t.opposite_bit_run_length() as usize != b
        || t.last_bit_previous_run_length() as usize != c {
        return Some(format!("runs must be bit {} x{} after x{} after x{}, tracker has bit {} x{} x{} x{}",
            last as u8, a, b, c, t.last_bit(), t.last_bit_run_length(),
            t.opposite_bit_run_length(), t.last_bit_previous_run_length()));
    }
    None
}

/// Window model: rescans the last `window` bytes (including the one being
/// coded) for every byte.
pub struct WindowModel {
    pub data: Vec<u8>,
    window: usize,
    max_order: usize,
    /// nothing before this position is in the window any more
    pub drained: usize,
    /// per order: positions of the byte after each earlier occurrence
    pub cands: Vec<Vec<u32>>,
    partial: u8,
    pub bit_index: usize,
}

impl WindowModel {
    pub fn new(window: usize, max_order: usize) -> Self {
        WindowModel { data: vec![], window, max_order, drained: 0, cands: vec![], partial: 1, bit_index: 7 }
    }
    pub fn window_start(&self) -> usize {
        (self.data.len() + 1).saturating_sub(self.window).max(self.drained)
    }
    pub fn start_new_byte(&mut self) {
        let cur = self.data.len();
        let ws = self.window_start();
        self.partial = 1;
        self.bit_index = 7;
        self.cands.clear();
        let mut c: Vec<u32> = (ws..cur).map(|p| p as u32).collect();
        let mut k = 0;
        while !c.is_empty() && k <= self.max_order {
            self.cands.push(c.clone());
            k += 1;
            if k > cur {
                break;
            }
            let want = self.data[cur - k];
            c.retain(|&p| p as usize >= k && p as usize - k >= ws && self.data[p as usize - k] == want);
        }
    }
    pub fn bit_after(&self, p: u32) -> bool {
        (self.data[p as usize] >> self.bit_index) & 1 == 1
    }
    pub fn push_bit(&mut self, bit: bool) {
        for c in self.cands.iter_mut() {
            let (data, bi) = (&self.data, self.bit_index);
            c.retain(|&p| ((data[p as usize] >> bi) & 1 == 1) == bit);
        }
        if let Some(n) = self.cands.iter().position(|c| c.is_empty()) {
            self.cands.truncate(n);
        }
        self.partial = (self.partial << 1) | bit as u8;
        if self.bit_index == 0 {
            self.data.push(self.partial);
            self.bit_index = 7;
        } else {
            self.bit_index -= 1;
        }
    }
}

pub fn trackers(rng: &mut vh::Rng) -> CostTrackers {
    use demixer::estimators::cost::CostTracker;
    CostTrackers::new(CostTracker::new(rng.u64() as u16), CostTracker::new(rng.u64() as u16))
}
