//! Harness primitives. The symbolic engine intercepts every `vf_*` function; the bodies below are what the
//! native build (counterexample replay, translator validation) runs.
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering};

static mut INPUT: Vec<u8> = Vec::new();
static mut POS: usize = 0;
static mut DIGEST: u64 = 1469598103934665603;
static mut NOBS: u64 = 0;
static mut PARAMS: [u64; 8] = [0; 8];
static mut VERBOSE: bool = false;
static TIME: AtomicI64 = AtomicI64::new(1700000000);
/// Declares a harness entry; its doc comment states the bounds, a `reach:` line the witnesses that must be reached.
#[macro_export]
macro_rules! entry {
    ($(#[doc = $d:literal])* $n:ident $b:block) => { $(#[doc = $d])* #[no_mangle] #[inline(never)] pub extern "C" fn $n() $b };
}
static NATIVE: AtomicU64 = AtomicU64::new(0);

fn next_byte() -> u8 {
    unsafe {
        let v = if POS < (*&raw const INPUT).len() { (&(*&raw const INPUT))[POS] } else { finish(12, "input exhausted") };
        POS += 1;
        v
    }
}
fn finish(code: i32, why: &str) -> ! {
    println!("END {} {} digest={:016x} obs={}", code, why, unsafe { DIGEST }, unsafe { NOBS });
    std::process::exit(code)
}

#[no_mangle] #[inline(never)]
pub extern "C" fn vf_sym(bits: u32) -> u64 {
    let mut v = 0u64;
    for i in 0..((bits + 7) / 8) { v |= (next_byte() as u64) << (8 * i); }
    if bits < 64 { v &= (1u64 << bits) - 1; }
    v
}
#[no_mangle] #[inline(never)]
pub extern "C" fn vf_sym_bytes(p: *mut u8, n: usize) {
    for i in 0..n { unsafe { *p.add(i) = next_byte(); } }
}
#[no_mangle] #[inline(never)]
pub extern "C" fn vf_assume(c: u8) { if c == 0 { finish(11, "assumption not met") } }
#[no_mangle] #[inline(never)]
pub extern "C" fn vf_check(c: u8, id: u32, p: *const u8, n: usize) {
    if c == 0 {
        let m = unsafe { std::slice::from_raw_parts(p, n) };
        println!("CHECK-FAILED c{} {}", id, String::from_utf8_lossy(m));
        finish(10, "check failed")
    }
}
#[no_mangle] #[inline(never)]
pub extern "C" fn vf_reach(id: u32) { unsafe { if VERBOSE { println!("reach {}", id) } } }
#[no_mangle] #[inline(never)]
pub extern "C" fn vf_observe(v: u64) {
    unsafe { NOBS += 1; for i in 0..8 { DIGEST ^= (v >> (8 * i)) & 255; DIGEST = DIGEST.wrapping_mul(1099511628211); } if VERBOSE { println!("observe {:x}", v) } }
}
#[no_mangle] #[inline(never)]
pub extern "C" fn vf_concrete(v: u64) -> u64 { std::hint::black_box(v) }
#[no_mangle] #[inline(never)]
pub extern "C" fn vf_is_symbolic() -> u8 { std::hint::black_box(NATIVE.load(Ordering::Relaxed) == 77) as u8 }
#[no_mangle] #[inline(never)]
pub extern "C" fn vf_note(p: *const u8, n: usize) {
    unsafe { if VERBOSE { let m = std::slice::from_raw_parts(p, n); println!("note: {}", String::from_utf8_lossy(m)); } }
}
#[no_mangle] #[inline(never)]
pub extern "C" fn vf_ins_count() -> u64 { std::hint::black_box(0) }
#[no_mangle] #[inline(never)]
pub extern "C" fn vf_param(i: u32) -> u64 { unsafe { PARAMS[i as usize & 7] } }

/// Every clock reading of the program under test comes from here (same in the engine and natively).
#[no_mangle]
pub extern "C" fn clock_gettime(_clk: i32, ts: *mut [i64; 2]) -> i32 {
    unsafe { *ts = [TIME.load(Ordering::Relaxed), 0]; }
    0
}
pub fn set_time(t: i64) { TIME.store(t, Ordering::Relaxed) }

pub fn native_main() {
    NATIVE.store(1, Ordering::Relaxed);
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 3 { for e in crate::ENTRIES { println!("{}", e.0) } return; }
    let b = a[2].as_bytes();
    let h = |c: u8| if c <= b'9' { c - b'0' } else { c - b'a' + 10 };
    unsafe {
        INPUT = b.chunks(2).map(|c| h(c[0]) * 16 + h(c[1])).collect();
        for (i, p) in a.iter().skip(3).take(8).enumerate() { if p == "-v" { VERBOSE = true } else { PARAMS[i] = p.parse().unwrap() } }
    }
    for e in crate::ENTRIES { if e.0 == a[1] { (e.1)(); finish(0, "ok") } }
    println!("no such entry"); std::process::exit(2)
}

// ---------------------------------------------------------------- convenience
pub fn u8s() -> u8 { vf_sym(8) as u8 }
pub fn u16s() -> u16 { vf_sym(16) as u16 }
pub fn u32s() -> u32 { vf_sym(32) as u32 }
pub fn u64s() -> u64 { vf_sym(64) }
pub fn i64s() -> i64 { vf_sym(64) as i64 }
pub fn bools() -> bool { vf_sym(1) != 0 }
/// One of `0..n`, each explored as its own path.
pub fn choose(n: usize) -> usize {
    if n <= 1 { return 0; }
    let v = vf_sym(8);
    assume(v < n as u64);
    vf_concrete(v) as usize
}
pub fn choose_bool() -> bool { choose(2) == 1 }
pub fn bytes(n: usize) -> Vec<u8> { let mut v = vec![0u8; n]; vf_sym_bytes(v.as_mut_ptr(), n); v }
pub fn assume(c: bool) { vf_assume(c as u8) }
pub fn check(c: bool, id: u32, msg: &str) { vf_check(c as u8, id, msg.as_ptr(), msg.len()) }
pub fn reach(id: u32) { vf_reach(id) }
pub fn obs(v: u64) { vf_observe(v) }
pub fn obs_bytes(b: &[u8]) { vf_observe(b.len() as u64); for c in b { vf_observe(*c as u64) } }
pub fn note(s: &str) { vf_note(s.as_ptr(), s.len()) }
pub fn noteb(s: &[u8]) { vf_note(s.as_ptr(), s.len()) }
pub fn thorough() -> bool { vf_param(0) != 0 }
/// quick / thorough bound
pub fn tier(q: usize, t: usize) -> usize { if thorough() { t } else { q } }
pub fn pick<'a, T>(v: &'a [T]) -> &'a T { &v[choose(v.len())] }

// ---------------------------------------------------------------- symbolic strings
/// n free bytes that form valid UTF-8
pub fn utf8(n: usize) -> String { match String::from_utf8(bytes(n)) { Ok(s) => s, Err(_) => { assume(false); unreachable!() } } }
/// n free characters of the given single-byte alphabet
pub fn alpha(n: usize, al: &[u8]) -> String {
    let b = bytes(n);
    let mut t = [false; 256];
    for c in al { t[*c as usize] = true; }
    for c in &b { assume(t[*c as usize]); }
    unsafe { String::from_utf8_unchecked(b) }
}
/// n free printable ASCII characters
pub fn ascii(n: usize) -> String {
    let b = bytes(n);
    for c in &b { assume(*c >= 0x20 && *c < 0x7f); }
    unsafe { String::from_utf8_unchecked(b) }
}
