//! c30's work on WebAssembly: 32-bit addresses and sizes. run.js drives it.
#[path = "../../harness/src/dx/portable.rs"]
#[allow(dead_code)]
mod portable;
use demixer::lut::LookUpTables;
use std::sync::OnceLock;

#[link(wasm_import_module = "env")]
extern "C" {
    fn panicked(text: *const u8, len: usize);
}

static LUTS: OnceLock<LookUpTables> = OnceLock::new();

#[no_mangle]
pub extern "C" fn prepare() -> usize {
    std::panic::set_hook(Box::new(|p| {
        let text = p.to_string();
        unsafe { panicked(text.as_ptr(), text.len()) }
    }));
    LUTS.get_or_init(LookUpTables::new);
    usize::BITS as usize
}

#[no_mangle]
pub extern "C" fn work(kind: u64, seed: u64, steps: u64) -> u64 {
    portable::work(LUTS.get().unwrap(), kind, seed, steps)
}

/// a deliberate fault: an address that needs more than 32 bits
#[no_mangle]
pub extern "C" fn canary(x: u64) -> u64 {
    ((x as usize) << 20 >> 20) as u64
}
