//! C07: fixed-point arithmetic against exact integer arithmetic (i128).
use demixer::fixed_point::types::*;
use demixer::fixed_point::*;
use vh::{ensure, Case, Rng};

#[derive(Clone, Copy)]
struct I32<const F: u8>(i32);
#[derive(Clone, Copy)]
struct U32<const F: u8>(u32);
#[derive(Clone, Copy)]
struct I64<const F: u8>(i64);
#[derive(Clone, Copy)]
struct U64<const F: u8>(u64);

macro_rules! fixed {
    ($t:ident, $raw:ty) => {
        impl<const F: u8> FixedPoint for $t<F> {
            type Raw = $raw;
            fn raw(&self) -> $raw { self.0 }
            fn new_unchecked(raw: $raw) -> Self { $t(raw) }
            const FRACTIONAL_BITS: u8 = F;
        }
    };
}
fixed!(I32, i32);
fixed!(U32, u32);
fixed!(I64, i64);
fixed!(U64, u64);

#[derive(Clone, Copy, PartialEq)]
enum Ty { I32, U32, I64, U64 }

impl Ty {
    fn lo(self) -> i128 { match self { Ty::I32 => i32::MIN as i128, Ty::I64 => i64::MIN as i128, _ => 0 } }
    fn hi(self) -> i128 { match self { Ty::I32 => i32::MAX as i128, Ty::U32 => u32::MAX as i128, Ty::I64 => i64::MAX as i128, Ty::U64 => u64::MAX as i128 } }
    fn pick(self, r: &mut Rng) -> i128 {
        let (lo, hi) = (self.lo(), self.hi());
        let bits = 128 - (hi as u128).leading_zeros();
        let v = match r.below(6) {
            0 => *r.pick(&[lo, lo + 1, hi, hi - 1, 0, 1, -1, hi / 2, hi / 2 + 1, lo / 2]),
            1 => { let b = r.below(bits as u64 + 1) as u32; let v = (1i128 << b) + r.range(-2, 2) as i128; if r.bool() { -v } else { v } }
            2 => { // an exact half of some unit, or next to it
                let b = r.below(bits as u64) as u32;
                let v = ((r.u64() as i128) << b) + (1i128 << b) / 2 + r.range(-1, 1) as i128;
                if r.bool() { -v } else { v } }
            3 => lo + r.below(5) as i128 * (1i128 << r.below(bits as u64)),
            4 => hi - r.below(5) as i128 * (1i128 << r.below(bits as u64)),
            _ => { let m = r.log_uniform(u64::MAX) as i128; if r.bool() { -m } else { m } }
        };
        if v < lo || v > hi {
            let span = (hi - lo + 1) as u128;
            lo + ((r.u64() as u128 * span) >> 64) as i128
        } else { v }
    }
}

/// num / 2^shift (shift may be negative), halves away from zero
fn rounded_shift(num: i128, shift: i32) -> Option<i128> {
    if shift <= 0 {
        let s = (-shift) as u32;
        if s >= 127 { return if num == 0 { Some(0) } else { None }; }
        return num.checked_mul(1i128.checked_shl(s)?).filter(|_| num.unsigned_abs().leading_zeros() > s);
    }
    let m = num.unsigned_abs();
    let q = (m + (1u128 << (shift - 1))) >> shift;
    Some(if num < 0 { -(q as i128) } else { q as i128 })
}

fn rounded_div(num: i128, d: i128) -> i128 {
    let m = num.unsigned_abs();
    let q = (m + d as u128 / 2) / d as u128;
    if num < 0 { -(q as i128) } else { q as i128 }
}

/// `slack`: operand inside half a unit of its type's limit
fn verdict(c: &mut Case, what: &str, want: Option<i128>, ty: Ty, got: Result<i128, String>, slack: bool) {
    c.count("results checked", 1);
    let tol = if slack { 1 } else { 0 };
    match (want, got) {
        (Some(w), Ok(g)) => {
            ensure!(c, (g - w).abs() <= tol && (w >= ty.lo() - tol && w <= ty.hi() + tol),
                "{}: returned {}, exact {}", what, g, w);
            c.count("in-range results", 1);
        }
        (Some(w), Err(e)) => {
            ensure!(c, w - tol < ty.lo() || w + tol > ty.hi(), "{}: refused ({}), but {} is representable", what, e, w);
            c.count("out-of-range results refused", 1);
        }
        (None, Ok(g)) => c.fail(format!("{}: returned {}, the exact result is far out of range", what, g)),
        (None, Err(_)) => c.count("out-of-range results refused", 1),
    }
    if !slack { c.count("exact results", 1); }
}

type Conv = (Ty, u8, Ty, u8, fn(i128) -> i128);
type Mul = (Ty, u8, u8, Ty, u8, fn(i128, i128) -> i128);

macro_rules! convs {
    ($v:ident, $ta:ident, $ra:ty, [$($fa:literal)*], $tb:ident, $m:ident, $fbs:tt) => {
        $( convs!(@row $v, $ta, $ra, $fa, $tb, $m, $fbs); )*
    };
    (@row $v:ident, $ta:ident, $ra:ty, $fa:literal, $tb:ident, $m:ident, [$($fb:literal)*]) => {
        $( $v.push((Ty::$ta, $fa, Ty::$tb, $fb, (|x: i128| $ta::<$fa>(x as $ra).$m::<$tb<$fb>>().raw() as i128) as fn(i128) -> i128)); )*
    };
}
macro_rules! muls {
    ($v:ident, $t:ident, $raw:ty, $f:path, $tr:ident, [$(($a:literal $b:literal $r:literal))*]) => {
        $( $v.push((Ty::$t, $a, $b, Ty::$tr, $r, (|x: i128, y: i128| {
            let z: $tr<$r> = $f(&$t::<$a>(x as $raw), &$t::<$b>(y as $raw));
            z.raw() as i128
        }) as fn(i128, i128) -> i128)); )*
    };
}

fn conversions() -> Vec<Conv> {
    let mut v: Vec<Conv> = vec![];
    convs!(v, I32, i32, [0 1 2 11 16 21 30 31], I32, to_fix_i32, [0 1 2 11 16 21 30 31]);
    convs!(v, I32, i32, [0 1 11 21 31], I64, to_fix_i64, [0 1 11 31 32 40 62 63]);
    convs!(v, U32, u32, [0 1 2 11 16 23 30 31], U32, to_fix_u32, [0 1 2 11 16 23 30 31]);
    convs!(v, U32, u32, [0 1 11 23 31], U64, to_fix_u64, [0 1 11 31 32 40 62 63]);
    convs!(v, I64, i64, [0 1 11 32 40 62 63], I32, to_fix_i32, [0 1 11 21 31]);
    convs!(v, I64, i64, [0 1 11 32 40 62 63], I64, to_fix_i64, [0 1 11 32 40 62 63]);
    convs!(v, U64, u64, [0 1 11 32 40 62 63], U32, to_fix_u32, [0 1 11 23 31]);
    convs!(v, U64, u64, [0 1 11 32 40 62 63], U64, to_fix_u64, [0 1 11 32 40 62 63]);
    v
}

fn products() -> Vec<Mul> {
    let mut v: Vec<Mul> = vec![];
    muls!(v, I32, i32, fix_i32::mul, I32, [(0 0 0) (1 1 2) (1 1 1) (31 31 31) (31 31 0) (21 21 21) (21 21 11) (31 21 21) (5 6 30) (0 0 31) (11 11 22) (16 16 31) (16 16 15)]);
    muls!(v, I32, i32, fix_i32::mul_wide, I64, [(0 0 0) (1 1 2) (1 1 1) (31 31 62) (31 31 63) (31 31 31) (31 31 0) (21 21 40) (21 21 42) (31 21 40) (5 6 63) (16 16 33)]);
    muls!(v, U32, u32, fix_u32::mul, U32, [(0 0 0) (1 1 2) (1 1 1) (31 31 31) (31 31 0) (23 31 23) (23 23 11) (5 6 30) (0 0 31) (11 11 22) (16 16 31) (16 16 15)]);
    muls!(v, U32, u32, fix_u32::mul_wide, U64, [(0 0 0) (1 1 2) (1 1 1) (31 31 62) (31 31 63) (31 31 31) (31 31 0) (23 31 40) (5 6 63) (16 16 33)]);
    v
}

/// floating-point views of a value and values made from floats
fn floats(c: &mut Case) {
    macro_rules! one { ($t:ident, $raw:ty, $ty:expr, [$($f:literal)*]) => { $( {
        let x = $ty.pick(&mut c.rng);
        let unit = 2f64.powi(-($f as i32));
        let what = format!("{} with {} fractional bits, raw {}", stringify!($t), $f, x);
        let a = $t::<$f>(x as $raw);
        // i128 to f64 rounds once; scaling by a power of two is exact
        let want = x as f64 * unit;
        let got = c.guarded(&what, || a.as_f64());
        ensure!(c, got == want, "{} reads as {:e}, exactly {:e}", what, got, want);
        let short = c.guarded(&what, || a.as_f32()) as f64;
        ensure!(c, (short - want).abs() <= want.abs() * 1.2e-7, "{} reads as {:e} in single precision, exactly {:e}", what, short, want);
        // what a double holds exactly comes back
        let y = if x.unsigned_abs() < 1 << 53 { x } else { (x >> 11) << 11 };
        if y as f64 as i128 == y {
            let got = c.guarded(&what, || $t::<$f>::from_f64(y as f64 * unit)).raw() as i128;
            ensure!(c, got == y, "raw {} with {} fractional bits came back from a double as {}", y, $f, got);
            c.count("values returned through doubles", 1);
        }
        let y = if x.unsigned_abs() < 1 << 24 { x } else { let s = 128 - x.unsigned_abs().leading_zeros() - 24; (x >> s) << s };
        if y as f32 as i128 == y && y >= $ty.lo() {
            let got = c.guarded(&what, || $t::<$f>::from_f32((y as f64 * unit) as f32)).raw() as i128;
            ensure!(c, got == y, "raw {} with {} fractional bits came back from a single as {}", y, $f, got);
            c.count("values returned through singles", 1);
        }
        // anything between lands within one unit
        let v = (y as f64 + c.rng.below(1000) as f64 / 1000.0) * unit;
        if y.unsigned_abs() < 1 << 40 && y + 1 <= $ty.hi() {
            let got = c.guarded(&what, || $t::<$f>::from_f64(v)).raw() as i128;
            ensure!(c, (got as f64 * unit - v).abs() <= unit * 1.0001, "{} became raw {} with {} fractional bits", v, got, $f);
        }
        c.count("results checked", 2);
    } )* } }
    one!(I32, i32, Ty::I32, [0 1 11 21 31]);
    one!(U32, u32, Ty::U32, [0 1 11 23 31]);
    one!(I64, i64, Ty::I64, [0 1 11 40 62 63]);
    one!(U64, u64, Ty::U64, [0 1 11 40 62 63]);
}

fn sum_like<R>(f: impl FnOnce() -> R) -> Result<R, String> { vh::caught(f) }

fn flips(c: &mut Case) {
    macro_rules! one { ($t:ident, $raw:ty, $bits:expr, $ty:expr) => {{
        let top = 1i128 << $bits;
        let x = match c.rng.below(5) {
            0 => *c.rng.pick(&[0, 1, 2, top / 2, top / 2 + 1, top - 1, top - 2]),
            1 => c.rng.log_uniform((top - 1) as u64) as i128,
            2 => top - c.rng.log_uniform((top - 1) as u64) as i128,
            _ => c.rng.below(top as u64) as i128,
        };
        let got = sum_like(|| $t::new(x as $raw, $bits).flip().raw() as i128);
        let want = if x == 0 { None } else { Some(top - x) };
        verdict(c, &format!("1 - {} in {}", x, stringify!($t)), want, $ty, got, false);
    }} }
    one!(FractOnlyU32, u32, 31u8, Ty::U32);
    one!(FractOnlyI32, i32, 31u8, Ty::I32);
    one!(FractOnlyU64, u64, 63u8, Ty::U64);
    one!(FractOnlyI64, i64, 63u8, Ty::I64);
}

fn bounded(c: &mut Case) {
    // types with a range narrower than their raw type refuse what is outside
    let x = Ty::I32.pick(&mut c.rng) as i32;
    let lim = 12i64 << 21;
    ensure!(c, vh::rejects(|| StretchedProbD::new(x, 21)) == ((x as i64).abs() > lim), "logistic value {} accepted or refused wrongly", x);
    let edge = (lim + c.rng.range(-2, 2)) as i32;
    for e in [edge, -edge] {
        ensure!(c, vh::rejects(|| StretchedProbD::new(e, 21)) == ((e as i64).abs() > lim), "logistic value {} accepted or refused wrongly", e);
    }
    let y = Ty::U32.pick(&mut c.rng) as u32;
    ensure!(c, vh::rejects(|| FractOnlyU32::new(y, 31)) == (y >> 31 != 0), "fraction {} accepted or refused wrongly", y);
    let i = Ty::I32.pick(&mut c.rng) as i32;
    ensure!(c, vh::rejects(|| FractOnlyI32::new(i, 31)) == (i < 0), "fraction {} accepted or refused wrongly", i);
    let y = Ty::U64.pick(&mut c.rng) as u64;
    ensure!(c, vh::rejects(|| FractOnlyU64::new(y, 63)) == (y >> 63 != 0), "fraction {} accepted or refused wrongly", y);
    let l = Ty::I64.pick(&mut c.rng) as i64;
    ensure!(c, vh::rejects(|| FractOnlyI64::new(l, 63)) == (l < 0), "fraction {} accepted or refused wrongly", l);
    // sign changes of unit-free values
    ensure!(c, vh::caught(|| NoFractI32::new(i, 0).to_unsigned().raw()).ok() == u32::try_from(i).ok(), "{} to unsigned", i);
    ensure!(c, vh::caught(|| NoFractI64::new(l, 0).to_unsigned().raw()).ok() == u64::try_from(l).ok(), "{} to unsigned", l);
    let u = Ty::U32.pick(&mut c.rng) as u32;
    ensure!(c, vh::caught(|| NoFractU32::new(u, 0).to_signed().raw()).ok() == i32::try_from(u).ok(), "{} to signed", u);
    let u = Ty::U64.pick(&mut c.rng) as u64;
    ensure!(c, vh::caught(|| NoFractU64::new(u, 0).to_signed().raw()).ok() == i64::try_from(u).ok(), "{} to signed", u);
    let f = c.rng.below(1 << 31) as u32;
    ensure!(c, FractOnlyU32::new(f, 31).to_signed().raw() == f as i32 && FractOnlyI32::new(f as i32, 31).to_unsigned().raw() == f, "sign change of fraction {}", f);
    let f = c.rng.u64() >> 1;
    ensure!(c, FractOnlyU64::new(f, 63).to_signed().raw() == f as i64 && FractOnlyI64::new(f as i64, 63).to_unsigned().raw() == f, "sign change of fraction {}", f);
    // clamping
    let w = MixerWeight::new(i, 21).clamped().raw() as i64;
    ensure!(c, w == (i as i64).clamp(-(8 << 21), 8 << 21), "clamped weight {} of {}", w, i);
    let q = StretchedProbQ::new(l, 40).clamped().raw();
    ensure!(c, q == l.clamp(-(12 << 40), 12 << 40), "clamped logistic value {} of {}", q, l);
    // a mismatched declared format is refused
    let fb = c.rng.below(64) as u8;
    ensure!(c, vh::rejects(|| NoFractI32::new(1, fb)) == (fb != 0), "declared format {} accepted or refused wrongly", fb);
    c.count("range checks", 17);
}

/// the shifting and dividing helpers themselves, at every shift
fn helpers(c: &mut Case) {
    macro_rules! down { ($m:ident, $raw:ty, $bits:expr, $signed:expr) => {{
        let (lo, hi) = (<$raw>::MIN as i128, <$raw>::MAX as i128);
        let shift = c.rng.usize(1, $bits - 2) as u8;
        let x = match c.rng.below(5) {
            0 => hi - c.rng.log_uniform(1 << shift) as i128 + 1,
            1 => lo + c.rng.log_uniform(1 << shift) as i128 - 1,
            2 => { let k = (c.rng.u64() >> c.rng.below(64)) as i128; (k << shift) + (1i128 << (shift - 1)) + c.rng.range(-1, 1) as i128 }
            3 => -(((c.rng.u64() >> c.rng.below(64)) as i128) << shift) - (1i128 << (shift - 1)) + c.rng.range(-1, 1) as i128,
            _ => c.rng.u64() as $raw as i128,
        };
        let x = if x < lo || x > hi { c.rng.u64() as $raw as i128 } else { x };
        let half = 1i128 << (shift - 1);
        let slack = x + half > hi || ($signed && x - half < lo + 1);
        let want = rounded_shift(x, shift as i32).unwrap();
        c.sig(x as u64); c.sig(shift as u64);
        let got = c.guarded("scaling down", || $m::scaled_down(x as $raw, shift)) as i128;
        ensure!(c, (got - want).abs() <= slack as i128, "{}: raw {} scaled down by {} bits is {}, exact {}", stringify!($m), x, shift, got, want);
        ensure!(c, vh::rejects(|| $m::scaled_down(x as $raw, 0)), "scaling by no bits accepted");
        c.count("results checked", 1);
    }} }
    down!(fix_i16, i16, 16, true);
    down!(fix_u16, u16, 16, false);
    down!(fix_i32, i32, 32, true);
    down!(fix_u32, u32, 32, false);
    down!(fix_i64, i64, 64, true);
    down!(fix_u64, u64, 64, false);
}

fn main() {
    vh::check("C07", "exploration",
        "case = batch of operations on operands chosen around limits, halves and powers of two, compared with exact integer arithmetic; distinct by operand batch",
        |r| {
            let convs = conversions();
            let muls = products();
            r.note("conversion format pairs", format!("{}", convs.len()));
            r.note("product formats", format!("{}", muls.len()));
            let n = r.n(40_000, 1_500_000);
            r.cases("conversions", n, |c| {
                for _ in 0..20 {
                    let &(ta, fa, tb, fb, f) = c.rng.pick(&convs);
                    let x = ta.pick(&mut c.rng);
                    c.sig(x as u64); c.sig((fa as u64) << 8 | fb as u64);
                    let shift = fa as i32 - fb as i32;
                    let want = rounded_shift(x, shift);
                    let inside = want.filter(|w| *w >= tb.lo() && *w <= tb.hi());
                    // narrowing shifts saturate within half a unit of the source type's limit
                    let slack = shift > 0 && { let half = 1i128 << (shift - 1);
                        let wide = if matches!(ta, Ty::I32) && matches!(tb, Ty::I64) { Ty::I64 } else if matches!(ta, Ty::U32) && matches!(tb, Ty::U64) { Ty::U64 } else { ta };
                        x + half > wide.hi() || (wide.lo() < 0 && x - half < wide.lo() + 1) };
                    let got = vh::caught(|| f(x));
                    let what = format!("raw {} with {} fractional bits to {} fractional bits", x, fa, fb);
                    c.desc(what.clone());
                    verdict(c, &what, if inside.is_some() || slack { want } else { None }, tb, got, slack);
                }
                c.nontrivial();
            });
            let n = r.n(20_000, 800_000);
            r.cases("products", n, |c| {
                for _ in 0..20 {
                    let &(t, fa, fb, tr, fr, f) = c.rng.pick(&muls);
                    let (x, y) = (t.pick(&mut c.rng), t.pick(&mut c.rng));
                    // mostly make the product representable
                    let y = if c.rng.chance(0.6) && x != 0 { let lim = (tr.hi() >> 1).min(t.hi()); let sh = (fa + fb) as i32 - fr as i32;
                        let m = if sh > 0 { lim.checked_shl(sh.min(60) as u32).unwrap_or(lim) } else { lim >> (-sh) }; 
                        let q = (m / x.abs()).min(t.hi()).max(1); let v = 1 + (c.rng.u64() as i128 & i64::MAX as i128) % q; if t.lo() < 0 && c.rng.bool() { -v } else { v } } else { y };
                    c.sig(x as u64); c.sig(y as u64);
                    let shift = fa as i32 + fb as i32 - fr as i32;
                    let p = x * y;
                    let want = rounded_shift(p, shift);
                    let inside = want.filter(|w| *w >= tr.lo() && *w <= tr.hi());
                    let wide = if t.lo() < 0 { Ty::I64 } else { Ty::U64 };
                    let slack = shift > 0 && { let half = 1i128 << (shift - 1); p + half > wide.hi() || (wide.lo() < 0 && p - half < wide.lo() + 1) };
                    let got = vh::caught(|| f(x, y));
                    let what = format!("product of raw {} ({} bits) and raw {} ({} bits) in {} bits", x, fa, y, fb, fr);
                    c.desc(what.clone());
                    verdict(c, &what, if inside.is_some() || slack { want } else { None }, tr, got, slack);
                }
                c.nontrivial();
            });
            let n = r.n(20_000, 800_000);
            r.cases("sums-quotients-complements", n, |c| {
                macro_rules! arith { ($t:ident, $raw:ty, $ty:expr) => {{
                    let (x, y) = ($ty.pick(&mut c.rng), $ty.pick(&mut c.rng));
                    // make sums land near the limit often
                    let y = if c.rng.chance(0.4) { let lim = if c.rng.bool() { $ty.hi() } else { $ty.lo() }; (lim - x + c.rng.range(-1, 1) as i128).clamp($ty.lo(), $ty.hi()) } else { y };
                    c.sig(x as u64); c.sig(y as u64);
                    let (a, b) = ($t::<11>(x as $raw), $t::<11>(y as $raw));
                    let fit = |w: i128| Some(w).filter(|w| *w >= $ty.lo() && *w <= $ty.hi());
                    c.desc(format!("{} and {}", x, y));
                    verdict(c, &format!("{} + {}", x, y), fit(x + y), $ty, vh::caught(|| a.add(&b).raw() as i128), false);
                    verdict(c, &format!("{} - {}", x, y), fit(x - y), $ty, vh::caught(|| a.sub(&b).raw() as i128), false);
                    let d = if c.rng.bool() { c.rng.log_uniform($ty.hi() as u64) as i128 } else { 1 + c.rng.below(9) as i128 };
                    let slack = x + d / 2 > $ty.hi() || ($ty.lo() < 0 && x - d / 2 < $ty.lo() + 1);
                    verdict(c, &format!("{} / {}", x, d), Some(rounded_div(x, d)), $ty, vh::caught(|| a.div(d as $raw).raw() as i128), slack);
                    ensure!(c, vh::rejects(|| a.div(0)), "division by zero accepted");
                    let fl = x.div_euclid(1 << 11);
                    ensure!(c, a.trunc() as i128 == fl, "integer part of raw {} is {}, not {}", x, fl, a.trunc());
                    ensure!(c, (a.as_f64() - x as f64 / 2048.0).abs() <= 1e-15 * (x as f64).abs(), "raw {} as float {}", x, a.as_f64());
                    ensure!(c, $t::<11>::ulp().raw() == 1, "unit in the last place");
                    ensure!(c, <$t<11> as FixedPoint>::FRACTIONAL_BITS == 11, "format");
                }} }
                arith!(I32, i32, Ty::I32);
                arith!(U32, u32, Ty::U32);
                arith!(I64, i64, Ty::I64);
                arith!(U64, u64, Ty::U64);
                macro_rules! negs { ($t:ident, $raw:ty, $ty:expr) => {{
                    let x = $ty.pick(&mut c.rng);
                    let w = Some(-x).filter(|w| *w <= $ty.hi());
                    verdict(c, &format!("-({})", x), w, $ty, vh::caught(|| $t::<11>(x as $raw).neg().raw() as i128), false);
                }} }
                negs!(I32, i32, Ty::I32);
                negs!(I64, i64, Ty::I64);
                flips(c);
                bounded(c);
                c.nontrivial();
            });
            r.cases("helpers", n, |c| {
                for _ in 0..10 { helpers(c); }
                c.nontrivial();
            });
            r.cases("floats", n, |c| {
                for _ in 0..4 { floats(c); }
                c.sig(c.index);
                c.nontrivial();
            });
            r.once("helpers-16-bit", |c| {
                // every value, every shift
                for shift in 1..15u8 {
                    let half = 1i128 << (shift - 1);
                    for x in 0..=u16::MAX {
                        let got = c.guarded("scaling down", || fix_u16::scaled_down(x, shift)) as i128;
                        let want = rounded_shift(x as i128, shift as i32).unwrap();
                        let slack = x as i128 + half > 65535;
                        ensure!(c, (got - want).abs() <= slack as i128, "raw {} scaled down by {} bits is {}, exact {}", x, shift, got, want);
                        let y = x as i16;
                        let got = c.guarded("scaling down", || fix_i16::scaled_down(y, shift)) as i128;
                        let want = rounded_shift(y as i128, shift as i32).unwrap();
                        let slack = y as i128 + half > 32767 || (y as i128) - half < -32767;
                        ensure!(c, (got - want).abs() <= slack as i128, "raw {} scaled down by {} bits is {}, exact {}", y, shift, got, want);
                    }
                }
                c.count("results checked", 2 * 14 * 65536);
                c.nontrivial();
            });
            r.exhaustive("scaling 16-bit values down by 1..14 bits");
            r.assume("operands within half a unit (of the target's last place, or half a divisor) of the raw type's limit may be off by one: the code saturates there");
            r.require("exact results", 500_000);
            r.require("values returned through doubles", 500_000);
            r.require("values returned through singles", 500_000);
            r.require("out-of-range results refused", 10_000);
        });
}
