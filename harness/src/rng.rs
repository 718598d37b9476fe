//! The operating system random source, replaced by the environment model:
//! every byte is an unconstrained input; a call fails iff the harness asked for it.
use crate::sym;
use core::sync::atomic::{AtomicU64, Ordering};

pub static CALLS: AtomicU64 = AtomicU64::new(0);
/// bit i set: the i-th call fails
pub static FAIL_MASK: AtomicU64 = AtomicU64::new(0);
pub static BYTES: AtomicU64 = AtomicU64::new(0);

#[unsafe(no_mangle)]
unsafe extern "Rust" fn __getrandom_v03_custom(dest: *mut u8, len: usize) -> Result<(), getrandom::Error> {
    let n = CALLS.fetch_add(1, Ordering::Relaxed);
    if n < 64 && (FAIL_MASK.load(Ordering::Relaxed) >> n) & 1 == 1 {
        return Err(getrandom::Error::UNEXPECTED);
    }
    BYTES.fetch_add(len as u64, Ordering::Relaxed);
    let s = unsafe { core::slice::from_raw_parts_mut(dest, len) };
    let g = unsafe { &mut *STATE.0.get() };
    match &g.fixed {
        Some(f) => {
            for (i, b) in s.iter_mut().enumerate() {
                *b = f[(g.pos + i) % f.len()];
            }
            g.pos += len;
        }
        None => sym::bytes(s, 900),
    }
    if g.keep {
        g.log.push(s.to_vec());
    }
    Ok(())
}

pub struct State {
    /// bytes to hand out (repeated) instead of unconstrained ones
    pub fixed: Option<Vec<u8>>,
    pos: usize,
    /// keep what was handed out
    pub keep: bool,
    pub log: Vec<Vec<u8>>,
}
pub struct Cell(core::cell::UnsafeCell<State>);
unsafe impl Sync for Cell {}
static STATE: Cell = Cell(core::cell::UnsafeCell::new(State { fixed: None, pos: 0, keep: false, log: Vec::new() }));
pub fn state() -> &'static mut State {
    unsafe { &mut *STATE.0.get() }
}
pub fn calls() -> u64 {
    CALLS.load(Ordering::Relaxed)
}
pub fn fail(mask: u64) {
    FAIL_MASK.store(mask, Ordering::Relaxed)
}
