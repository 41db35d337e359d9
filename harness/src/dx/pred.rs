//! Driving the real predictor over whole inputs.
use demixer::bit::Bit;
use demixer::coding::FinalProbability;
use demixer::fixed_point::FixedPoint;
use demixer::lut::LookUpTables;
use demixer::predictor::Predictor;
use vh::Case;

pub const TOP: u32 = 1 << 23;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Setup {
    Default,
    Window(usize, usize),
}

pub fn make<'a>(s: Setup, luts: &'a LookUpTables) -> Predictor<'a> {
    match s {
        Setup::Default => Predictor::new(luts),
        Setup::Window(w, o) => Predictor::with_window(w, o, luts),
    }
}

pub fn bit_cost(raw: u32, bit: bool) -> f64 {
    let p = if bit { TOP - raw } else { raw };
    23.0 - (p as f64).log2()
}

/// Feeds the input; `see(position, bit index, probability, bit)` for each bit.
pub fn drive(c: &Case, p: &mut Predictor, v: &[u8], mut see: impl FnMut(usize, u32, FinalProbability, bool)) {
    for (pos, &b) in v.iter().enumerate() {
        for left in (0..8u32).rev() {
            let bit = (b >> left) & 1 == 1;
            let prob = c.guarded("predicting", || {
                if left == 7 {
                    p.start_new_byte();
                }
                p.predict()
            });
            let raw = prob.raw();
            vh::ensure!(c, raw > 0 && raw < TOP, "byte {} bit {}: probability {}/2^23 is not strictly between 0 and 1", pos, left, raw);
            see(pos, left, prob, bit);
            c.guarded("updating", || p.update(Bit::from(bit)));
        }
    }
}
