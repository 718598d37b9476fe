//! Hooks between harness entry points and the symbolic executor.
//!
//! Natively these read a replay file (inputs found by the solver); under the
//! symbolic executor each function is intercepted by its symbol name.
use std::cell::UnsafeCell;
use std::hint::black_box;

struct Replay {
    vals: Vec<Vec<u8>>,
    pos: usize,
    outs: Vec<Vec<u8>>,
    opos: usize,
    params: Vec<u64>,
    loaded: bool,
}

struct G(UnsafeCell<Replay>);
unsafe impl Sync for G {}
static REPLAY: G = G(UnsafeCell::new(Replay {
    vals: Vec::new(),
    pos: 0,
    outs: Vec::new(),
    opos: 0,
    params: Vec::new(),
    loaded: false,
}));

fn unhex(s: &str) -> Vec<u8> {
    let s = s.trim();
    (0..s.len() / 2)
        .map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap())
        .collect()
}

pub fn load(text: &str) {
    let r = unsafe { &mut *REPLAY.0.get() };
    for l in text.lines() {
        let mut it = l.split_whitespace();
        match it.next() {
            Some("v") => {
                let _tag = it.next();
                r.vals.push(unhex(it.next().unwrap_or("")));
            }
            Some("p") => r.params.push(it.next().unwrap().parse().unwrap()),
            Some("o") => r.outs.push(unhex(it.next().unwrap_or(""))),
            Some("poke") => {
                let a = u64::from_str_radix(it.next().unwrap(), 16).unwrap();
                let v = u64::from_str_radix(it.next().unwrap(), 16).unwrap();
                unsafe { *(a as *mut u64) = v }
            }
            _ => {}
        }
    }
    r.loaded = true;
}

#[unsafe(no_mangle)]
#[inline(never)]
pub extern "C" fn sym_hook_bytes(p: *mut u8, len: usize, tag: u32) {
    let r = unsafe { &mut *REPLAY.0.get() };
    if r.pos >= r.vals.len() {
        // beyond the recorded inputs: zero
        for i in 0..len {
            unsafe { *p.add(i) = 0 }
        }
        r.pos += 1;
        return;
    }
    let v = &r.vals[r.pos];
    r.pos += 1;
    assert!(v.len() == len, "replay length mismatch tag {tag}");
    for i in 0..len {
        unsafe { *p.add(i) = v[i] }
    }
}

#[unsafe(no_mangle)]
#[inline(never)]
pub extern "C" fn sym_hook_param(i: usize) -> u64 {
    let r = unsafe { &mut *REPLAY.0.get() };
    r.params.get(i).copied().unwrap_or(0)
}

/// fork over the possible values
#[unsafe(no_mangle)]
#[inline(never)]
pub extern "C" fn sym_hook_concrete(i: usize) -> usize {
    black_box(i)
}

#[unsafe(no_mangle)]
#[inline(never)]
pub extern "C" fn sym_hook_assume(c: u32) {
    if black_box(c) == 0 {
        println!("ASSUME-FAILED");
        std::process::exit(77);
    }
}

#[unsafe(no_mangle)]
#[inline(never)]
pub extern "C" fn sym_hook_check(c: u32, id: u32) {
    if black_box(c) == 0 {
        println!("CHECK-FAILED {id}");
        std::process::exit(1);
    }
}

#[unsafe(no_mangle)]
#[inline(never)]
pub extern "C" fn sym_hook_eq(a: *const u8, b: *const u8, len: usize, id: u32) {
    let (a, b) = unsafe {
        (
            std::slice::from_raw_parts(a, len),
            std::slice::from_raw_parts(b, len),
        )
    };
    if black_box(a) != black_box(b) {
        println!("CHECK-FAILED {id}");
        println!(" got  {a:02x?}\n want {b:02x?}");
        std::process::exit(1);
    }
}

#[unsafe(no_mangle)]
#[inline(never)]
pub extern "C" fn sym_hook_out(a: *const u8, len: usize) {
    let a = unsafe { std::slice::from_raw_parts(a, len) };
    let r = unsafe { &mut *REPLAY.0.get() };
    if r.opos < r.outs.len() {
        if r.outs[r.opos] != a {
            println!(
                "OUT-MISMATCH {} engine {:02x?} native {:02x?}",
                r.opos, r.outs[r.opos], a
            );
            std::process::exit(3);
        }
    }
    r.opos += 1;
}

#[unsafe(no_mangle)]
#[inline(never)]
pub extern "C" fn sym_hook_reach(id: u32) {
    black_box(id);
}

/// hint: proofs may treat these bytes as unconstrained
#[unsafe(no_mangle)]
#[inline(never)]
pub extern "C" fn sym_hook_cut(p: *const u8, len: usize) {
    black_box((p, len));
}

/// syntactically the same bytes (so certainly equal)
#[unsafe(no_mangle)]
#[inline(never)]
pub extern "C" fn sym_hook_same(a: *const u8, b: *const u8, len: usize) -> u32 {
    sym_hook_memeq(a, b, len)
}

/// ends the path: everything to be checked has been
#[unsafe(no_mangle)]
#[inline(never)]
pub extern "C" fn sym_hook_finish() {
    println!("DONE");
    std::process::exit(0);
}

/// mode switches for the engine (e.g. start/stop constant-time monitoring)
#[unsafe(no_mangle)]
#[inline(never)]
pub extern "C" fn sym_hook_mode(id: u32, v: u64) {
    black_box((id, v));
}

/// A branch free boolean test, decided in the engine without forking:
/// 1 iff the two ranges are equal.
#[unsafe(no_mangle)]
#[inline(never)]
pub extern "C" fn sym_hook_memeq(a: *const u8, b: *const u8, len: usize) -> u32 {
    let (a, b) = unsafe {
        (
            std::slice::from_raw_parts(a, len),
            std::slice::from_raw_parts(b, len),
        )
    };
    (black_box(a) == black_box(b)) as u32
}

unsafe extern "C" {
    fn posix_memalign(p: *mut *mut u8, align: usize, size: usize) -> i32;
    fn free(p: *mut u8);
    fn getenv(n: *const u8) -> *const u8;
    fn mmap(a: *mut u8, l: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
    fn mprotect(a: *mut u8, l: usize, p: i32) -> i32;
}

/// SYM_GUARD=1: every allocation ends at an inaccessible page, =2: starts after one
/// (used when an out-of-bounds access found by the engine is replayed)
fn guard_mode() -> u8 {
    static MODE: std::sync::atomic::AtomicU8 = std::sync::atomic::AtomicU8::new(255);
    let m = MODE.load(std::sync::atomic::Ordering::Relaxed);
    if m != 255 {
        return m;
    }
    let e = unsafe { getenv(b"SYM_GUARD\0".as_ptr()) };
    let m = if e.is_null() { 0 } else { unsafe { *e }.wrapping_sub(b'0') };
    MODE.store(m, std::sync::atomic::Ordering::Relaxed);
    m
}

#[unsafe(no_mangle)]
#[inline(never)]
pub extern "C" fn sym_hook_alloc(len: usize, align: usize) -> *mut u8 {
    let mut p = core::ptr::null_mut();
    let g = guard_mode();
    if g != 0 {
        unsafe {
            let n = (len + 4095) & !4095;
            let b = mmap(p, n + 8192, 3, 0x22, -1, 0);
            mprotect(b, 4096, 0);
            mprotect(b.add(4096 + n), 4096, 0);
            return if g == 2 { b.add(4096) } else { ((b as usize + 4096 + n - len) & !(align.max(1) - 1)) as *mut u8 };
        }
    }
    unsafe {
        posix_memalign(&mut p, align.max(16), len.max(1));
    }
    p
}

#[unsafe(no_mangle)]
#[inline(never)]
pub extern "C" fn sym_hook_free(p: *mut u8) {
    if guard_mode() == 0 {
        unsafe { free(p) }
    }
}

pub struct Alloc;
unsafe impl std::alloc::GlobalAlloc for Alloc {
    #[inline]
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        sym_hook_alloc(l.size(), l.align())
    }
    #[inline]
    unsafe fn dealloc(&self, p: *mut u8, _l: std::alloc::Layout) {
        sym_hook_free(p)
    }
}

// ---- friendly wrappers

pub fn bytes(b: &mut [u8], tag: u32) {
    sym_hook_bytes(b.as_mut_ptr(), b.len(), tag)
}
pub fn arr<const N: usize>(tag: u32) -> [u8; N] {
    let mut a = [0u8; N];
    bytes(&mut a, tag);
    a
}
pub fn u8(tag: u32) -> u8 {
    arr::<1>(tag)[0]
}
pub fn u64(tag: u32) -> u64 {
    u64::from_le_bytes(arr::<8>(tag))
}
/// heap vector of symbolic bytes, exactly `n` long
pub fn vec(n: usize, tag: u32) -> Vec<u8> {
    let mut v = vec![0u8; n];
    bytes(&mut v, tag);
    v
}
pub fn param(i: usize) -> usize {
    sym_hook_param(i) as usize
}
pub fn assume(c: bool) {
    sym_hook_assume(c as u32)
}
pub fn check(c: bool, id: u32) {
    sym_hook_check(c as u32, id)
}
pub fn eq(a: &[u8], b: &[u8], id: u32) {
    check(a.len() == b.len(), id);
    sym_hook_eq(a.as_ptr(), b.as_ptr(), a.len(), id)
}
pub fn memeq(a: &[u8], b: &[u8]) -> bool {
    a.len() == b.len() && sym_hook_memeq(a.as_ptr(), b.as_ptr(), a.len()) != 0
}
pub fn out(a: &[u8]) {
    sym_hook_out(a.as_ptr(), a.len())
}
pub fn reach(id: u32) {
    sym_hook_reach(id)
}
pub fn mode(id: u32, v: u64) {
    sym_hook_mode(id, v)
}

pub fn concrete(i: usize) -> usize {
    sym_hook_concrete(i)
}
pub fn finish() {
    sym_hook_finish()
}
pub fn cut(a: &[u8]) {
    sym_hook_cut(a.as_ptr(), a.len())
}
pub fn same(a: &[u8], b: &[u8]) -> bool {
    a.len() == b.len() && sym_hook_same(a.as_ptr(), b.as_ptr(), a.len()) != 0
}
