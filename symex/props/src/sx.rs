//! The interface between a property harness and whoever runs it: the symbolic engine (IR build) or the
//! native replayer, which answers every request from a recorded assignment.
mod raw {
    // These do not return when they are replayed.
    unsafe extern "C-unwind" {
        pub fn sx_assume(c: bool);
        pub fn sx_fail(p: *const u8, n: usize);
    }
    unsafe extern "C" {
        pub fn sx_byte() -> u8;
        pub fn sx_u32() -> u32;
        pub fn sx_conc(v: u64) -> u64;
        pub fn sx_note(p: *const u8, n: usize);
        pub fn sx_show(p: *const u8, n: usize);
        pub fn sx_cover(id: u32);
    }
}
/// An arbitrary byte.
pub fn byte() -> u8 {
    unsafe { raw::sx_byte() }
}
/// An arbitrary 32-bit number.
pub fn word() -> u32 {
    unsafe { raw::sx_u32() }
}
/// An arbitrary number below `n` (n <= 256), one path per value the solver finds feasible.
pub fn choose(n: usize) -> usize {
    if n <= 1 {
        return 0;
    }
    let b = byte();
    assume((b as usize) < n);
    conc(b as u64) as usize
}
/// Split the path on every feasible value of `v`.
pub fn conc(v: u64) -> u64 {
    unsafe { raw::sx_conc(v) }
}
pub fn pick<T: Copy>(xs: &[T]) -> T {
    xs[choose(xs.len())]
}
pub fn assume(c: bool) {
    unsafe { raw::sx_assume(c) }
}
/// The property does not hold on this path.
#[inline(never)]
pub fn fail(m: &str) {
    unsafe { raw::sx_fail(m.as_ptr(), m.len()) }
}
#[inline(always)]
pub fn check(c: bool, m: &str) {
    if !c {
        fail(m)
    }
}
/// Something observable, compared between the encoding and the native run.
pub fn note(m: &str) {
    unsafe { raw::sx_note(m.as_ptr(), m.len()) }
}
/// Something for the reader of a native replay (ignored by the engine).
pub fn show(m: &str) {
    unsafe { raw::sx_show(m.as_ptr(), m.len()) }
}
/// This point was reached on a completed path (vacuity witness).
pub fn cover(id: u32) {
    unsafe { raw::sx_cover(id) }
}
/// An arbitrary ASCII byte (NUL to DEL).
pub fn ascii() -> u8 {
    let b = byte();
    assume(b < 0x80);
    b
}
/// An arbitrary ASCII letter.
pub fn letter() -> u8 {
    let b = byte();
    assume((b | 32).wrapping_sub(b'a') < 26);
    b
}
pub fn digit() -> u8 {
    let b = byte();
    assume(b.wrapping_sub(b'0') < 10);
    b
}
/// An arbitrary Unicode scalar value.
pub fn any_char() -> char {
    let w = word();
    assume((w < 0x11_0000) & !((w >= 0xd800) & (w < 0xe000)));
    unsafe { char::from_u32_unchecked(w) }
}
