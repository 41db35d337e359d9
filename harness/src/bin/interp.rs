//! Run by Miri, the interpreter that detects undefined behaviour, and by it on
//! platforms of the other byte order.
//! `tables`: the tables that are cheap to make; `free`: what needs no tables;
//! `most`: everything but the predictor; `all`: everything.
//! `digest KIND SEED STEPS`...: digests of work that needs no tables.
#[path = "../dx/portable.rs"]
#[allow(dead_code)]
mod portable;
use demixer::lut::estimator::DeceleratingEstimatorRates;
use demixer::lut::LookUpTables;
use portable::mixed::*;
use portable::{free, small, tables};
use vh::{mix, Rng, H0};

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a[1] == "digest" {
        let n: Vec<u64> = a[2..].iter().map(|x| x.parse().unwrap()).collect();
        for x in n.chunks(3) { println!("digest {:016x}", free(x[0], x[1], x[2])); }
        return;
    }
    let n: u64 = a[2].parse().unwrap();
    let mut r = Rng::new(a[3].parse().unwrap());
    let rates = DeceleratingEstimatorRates::make_default();
    let luts = if a[1] == "all" || a[1] == "most" { Some(LookUpTables::new()) } else { None };
    let mut h = H0;
    let mut steps = 0;
    if a[1] == "tables" {
        h = tables(&rates);
        steps = 4 << 11;
    }
    for i in 0..n {
        h = mix(h, small(&mut r, &rates, 60));
        let s = Spec { kind: match luts { Some(_) if a[1] == "all" => i % KINDS, Some(_) => 1 + i % 10, None => 7 + i % 4 }, seed: r.u64(), steps: 40 + r.log_uniform(300) as usize };
        let mut x = match &luts { Some(l) => make(s, l), None => make_free(s).unwrap() };
        for _ in 0..s.steps { h = mix(h, x.step()); }
        h = mix(h, x.end());
        steps += s.steps;
    }
    println!("interpreted={} digest={:x}", steps, h);
}
