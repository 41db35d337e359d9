//! Deliberate faults: shows that a sanitizer build does report.
static mut SHARED: u64 = 0;

#[inline(never)]
fn bump(n: u64) {
    unsafe { std::ptr::write_volatile(&raw mut SHARED, std::ptr::read_volatile(&raw const SHARED) + n) }
}

fn main() {
    match std::env::args().nth(1).as_deref() {
        Some("race") => {
            let t: Vec<_> = (0..4).map(|i| std::thread::spawn(move || for _ in 0..10_000 { bump(i) })).collect();
            for x in t { x.join().unwrap(); }
        }
        Some("overrun") => {
            let v = vec![1u8; std::env::args().count() + 30];
            let p = std::hint::black_box(v.as_ptr());
            println!("{}", unsafe { *p.add(v.len() + 1) });
        }
        Some("stale") => {
            let v = vec![1u8; std::env::args().count() + 30];
            let p = std::hint::black_box(v.as_ptr());
            drop(v);
            println!("{}", unsafe { *p.add(3) });
        }
        Some("unset") => {
            let mut v: Vec<u8> = Vec::with_capacity(std::env::args().count() + 30);
            unsafe { v.set_len(20) };
            if std::hint::black_box(&v)[7] > 3 { println!("large") } else { println!("small") }
        }
        Some("precondition") => {
            let mut v = Vec::with_capacity(100);
            v.extend_from_slice(&vec![1u8; std::env::args().count()]);
            println!("{}", unsafe { *std::hint::black_box(&v).get_unchecked(std::hint::black_box(50)) });
        }
        _ => std::process::exit(3),
    }
}
