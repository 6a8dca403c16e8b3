//! The interface between harnesses and the engine.
#[allow(unused_macros)]
macro_rules! table { ($($n:ident),* $(,)?) => { &[$((stringify!($n), $n)),*] } }
macro_rules! harness { ($($(#[$a:meta])* fn $n:ident() $b:block)*) => { $($(#[$a])* #[no_mangle] pub extern "C" fn $n() $b)* } }

use std::io;

extern "C" {
    fn sym_make(p: *mut u8, n: usize);
    fn sym_assume(b: u8);
    fn sym_fail(p: *const u8, n: usize) -> !;
    fn sym_cover(id: u32);
    fn sym_out(p: *const u8, n: usize);
    fn sym_param(i: u32) -> u64;
    fn sym_concrete(v: u64) -> u64;
    fn sym_heap(n: u64);
}

/// `n` fresh symbolic bytes.
#[inline(never)]
pub fn bytes(n: usize) -> Vec<u8> {
    let mut v = vec![0u8; n];
    unsafe { sym_make(v.as_mut_ptr(), n) };
    v
}
pub fn fill(b: &mut [u8]) {
    unsafe { sym_make(b.as_mut_ptr(), b.len()) };
}
macro_rules! mk {
    ($($n:ident $t:ty;)*) => {$(
        #[inline(never)]
        pub fn $n() -> $t {
            let mut b = [0u8; std::mem::size_of::<$t>()];
            fill(&mut b);
            <$t>::from_le_bytes(b)
        }
    )*}
}
mk! { u8s u8; u16s u16; u32s u32; u64s u64; usizes usize; i8s i8; i16s i16; i32s i32; i64s i64; isizes isize; }
#[inline(never)]
pub fn bools() -> bool {
    let b = u8s();
    assume(b < 2);
    b != 0
}
#[inline(always)]
pub fn assume(b: bool) {
    unsafe { sym_assume(b as u8) }
}
pub fn fail(m: &str) -> ! {
    unsafe { sym_fail(m.as_ptr(), m.len()) }
}
pub fn cover(id: u32) {
    unsafe { sym_cover(id) }
}
pub fn out(b: &[u8]) {
    unsafe { sym_out(b.as_ptr(), b.len()) }
}
pub fn out64(v: u64) {
    out(&v.to_le_bytes())
}
pub fn param(i: u32) -> usize {
    unsafe { sym_param(i) as usize }
}
/// From here on, allocating more than `n` bytes on top of what is allocated
/// now is a failure (0: no more).
pub fn heap(n: u64) {
    unsafe { sym_heap(n) }
}
/// Splits the path on every feasible value of `v`.
pub fn concrete(v: u64) -> u64 {
    unsafe { sym_concrete(v) }
}
/// A nondeterministic choice in `0..n` (one path per value).
#[inline(never)]
pub fn choose(n: usize) -> usize {
    if n <= 1 {
        return 0;
    }
    if n <= 256 {
        let b = u8s();
        assume((b as usize) < n);
        concrete(b as u64) as usize
    } else {
        let b = u16s();
        assume((b as usize) < n);
        concrete(b as u64) as usize
    }
}
#[inline(always)]
pub fn check(b: bool, m: &str) {
    if !b {
        fail(m)
    }
}
