//! C19: quantization of occurrence counts, observed over its whole domain.
use demixer::util::quantizers::OccurrenceCountQuantizer as Q;
use vh::ensure;

fn main() {
    vh::check("C19", "exploration",
        "case = one count (all 65536); the quantized values are observed in order and judged as a trace; distinct by count",
        |r| {
            r.once("all-counts", |c| {
                c.desc("all counts 0..=65535");
                let max = c.guarded("max_output", || Q::max_output());
                let mut last = 0usize;
                let mut class_start = 0u32;
                for n in 0..=u16::MAX {
                    let q = c.guarded("quantize", || Q::quantize(n));
                    ensure!(c, q <= max, "quantize({}) = {} exceeds the maximum {}", n, q, max);
                    if n == 0 {
                        ensure!(c, q == 0, "quantize(0) = {}", q);
                    } else {
                        ensure!(c, q >= last, "quantize({}) = {} after {}", n, q, last);
                        ensure!(c, q - last <= 1, "quantize({}) = {} skips values after {}", n, q, last);
                        if n <= 4 {
                            ensure!(c, q == n as usize, "small count {} is quantized to {}", n, q);
                        }
                    }
                    if q != last {
                        class_start = n as u32;
                    }
                    // classes are at most half an octave wide
                    ensure!(c, (n as u32) * 2 < class_start * 3 || n as u32 == class_start,
                            "counts {} and {} share the value {} though they differ by a factor of {:.3}",
                            class_start, n, q, n as f64 / class_start as f64);
                    ensure!(c, q == Q::quantize(n), "quantize({}) is not a function", n);
                    last = q;
                    c.count("counts observed", 1);
                }
                ensure!(c, last == max, "the maximum {} is never reached, the largest value is {}", max, last);
                c.max("largest value", last as f64);
                c.nontrivial();
            });
            r.add_distinct(65_535);
            r.exhaustive("all 65536 occurrence counts");
            r.assume("small counts are those up to 4; the fixed ratio of counts sharing a value is 3:2");
            r.require("counts observed", 65_536);
        });
}
