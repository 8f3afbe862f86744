//! Intrinsics shared by the symbolic build (modelled by the executor) and the native replay build.
mod raw {
    extern "C-unwind" {
        pub fn sym_byte(lo: u8, hi: u8) -> u8;
        pub fn sym_pick(n: u32) -> u32;
        pub fn sym_assume(b: bool);
        pub fn sym_assert(b: bool, id: u32);
        pub fn sym_cover(id: u32);
        pub fn sym_observe(v: u64);
        pub fn sym_outcome(p: *const u8, n: usize);
    }
}
/// a fresh symbolic byte in lo..=hi
#[inline(never)]
pub fn byte(lo: u8, hi: u8) -> u8 {
    unsafe { raw::sym_byte(lo, hi) }
}
/// a fresh choice in 0..n, split into one path per value
#[inline(never)]
pub fn pick(n: u32) -> u32 {
    if n <= 1 {
        return 0;
    }
    unsafe { raw::sym_pick(n) }
}
pub fn flag() -> bool {
    pick(2) == 1
}
pub fn assume(b: bool) {
    unsafe { raw::sym_assume(b) }
}
/// the property: must hold for every value of the symbolic variables on this path
#[inline(never)]
pub fn check(b: bool, id: u32) {
    unsafe { raw::sym_assert(b, id) }
}
/// reachability witness: the driver fails if a declared witness is never reached
pub fn cover(id: u32) {
    unsafe { raw::sym_cover(id) }
}
pub fn observe(v: u64) {
    unsafe { raw::sym_observe(v) }
}
/// the text this path is about (recorded in path witnesses and replays)
pub fn doc(s: &[u8]) {
    unsafe { raw::sym_outcome(s.as_ptr(), s.len()) }
}
