//! Harness-side API of the symbolic engine.  Under the engine these are
//! intercepted; natively (replay crate) they read a model file.
extern "C" {
    fn __sym_int(n: *const u8, l: usize, lo: u64, hi: u64) -> u64;
    fn __sym_u128(n: *const u8, l: usize, out: *mut u128, lo_lo: u64, lo_hi: u64, hi_lo: u64, hi_hi: u64);
    fn __sym_key(n: *const u8, l: usize, out: *mut u8);
    fn __sym_assume(c: u8);
    fn __sym_assert(c: u8, m: *const u8, l: usize);
    fn __sym_cover(m: *const u8, l: usize);
    fn __sym_observe(m: *const u8, l: usize, v: u64);
    fn __sym_nopanic(m: *const u8, l: usize);
    fn __sym_param(n: *const u8, l: usize, d: u64) -> u64;
    fn __sym_pick(v: u64) -> u64;
    fn __sym_ite(c: u8, a: u64, b: u64) -> u64;
    fn __sym_active(m: *const u8, l: usize) -> u8;
    fn __sym_end() -> !;
    fn __sym_abort(m: *const u8, l: usize) -> !;
}
pub fn int(n: &str, lo: u64, hi: u64) -> u64 {
    unsafe { __sym_int(n.as_ptr(), n.len(), lo, hi) }
}
pub fn u64v(n: &str) -> u64 {
    int(n, 0, u64::MAX)
}
pub fn u128r(n: &str, lo: u128, hi: u128) -> u128 {
    let mut o = 0u128;
    unsafe { __sym_u128(n.as_ptr(), n.len(), &mut o, lo as u64, (lo >> 64) as u64, hi as u64, (hi >> 64) as u64) };
    o
}
pub fn key(n: &str) -> [u8; 32] {
    let mut o = [0u8; 32];
    unsafe { __sym_key(n.as_ptr(), n.len(), o.as_mut_ptr()) };
    o
}
pub fn assume(c: bool) {
    unsafe { __sym_assume(c as u8) }
}
/// `m` starts with the comma-separated ids of the properties it belongs to.
pub fn check(c: bool, m: &str) {
    unsafe { __sym_assert(c as u8, m.as_ptr(), m.len()) }
}
pub fn cover(m: &str) {
    unsafe { __sym_cover(m.as_ptr(), m.len()) }
}
pub fn observe(m: &str, v: u64) {
    unsafe { __sym_observe(m.as_ptr(), m.len(), v) }
}
/// From here on a panic is a violation of the properties named in `m`.
pub fn nopanic(m: &str) {
    unsafe { __sym_nopanic(m.as_ptr(), m.len()) }
}
pub fn param(n: &str, d: u64) -> u64 {
    unsafe { __sym_param(n.as_ptr(), n.len(), d) }
}
pub fn pick(v: u64) -> u64 {
    unsafe { __sym_pick(v) }
}
pub fn ite(c: bool, a: u64, b: u64) -> u64 {
    unsafe { __sym_ite(c as u8, a, b) }
}
pub fn active(m: &str) -> bool {
    unsafe { __sym_active(m.as_ptr(), m.len()) != 0 }
}
pub fn end() -> ! {
    unsafe { __sym_end() }
}
pub fn abort(m: &str) -> ! {
    unsafe { __sym_abort(m.as_ptr(), m.len()) }
}
pub fn min(a: u64, b: u64) -> u64 {
    ite(a < b, a, b)
}
pub fn max(a: u64, b: u64) -> u64 {
    ite(a < b, b, a)
}
/// a - b, or 0
pub fn sat_sub(a: u64, b: u64) -> u64 {
    ite(a < b, 0, a.wrapping_sub(b))
}
pub fn eq32(a: &[u8; 32], b: &[u8; 32]) -> bool {
    let mut r = true;
    let mut i = 0;
    while i < 4 {
        let x = unsafe { (a.as_ptr().add(8 * i) as *const u64).read_unaligned() };
        let y = unsafe { (b.as_ptr().add(8 * i) as *const u64).read_unaligned() };
        r &= x == y;
        i += 1;
    }
    r
}
