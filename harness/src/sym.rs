//! Interface to the symbolic executor (and, natively, to the replay runner).
//! Under `symex` these symbols are intrinsics; in /verif/replay they are plain functions
//! that read one recorded byte per call.
#[cfg(feature = "native")]
unsafe extern "C-unwind" {
    fn sym_u8() -> u8;
    fn sym_choice(n: u32) -> u32;
    fn sym_assume(b: bool);
    fn sym_assert(b: bool, p: *const u8, n: usize);
    fn sym_out(v: u64);
    fn sym_param(i: u32) -> u64;
    fn sym_cover(i: u32);
}
#[cfg(not(feature = "native"))]
unsafe extern "C" {
    fn sym_u8() -> u8;
    fn sym_choice(n: u32) -> u32;
    fn sym_assume(b: bool);
    fn sym_assert(b: bool, p: *const u8, n: usize);
    fn sym_out(v: u64);
    fn sym_param(i: u32) -> u64;
    fn sym_cover(i: u32);
}
#[inline(always)]
pub fn byte() -> u8 {
    unsafe { sym_u8() }
}
/// Concrete (forked) choice in 0..n.
#[inline(always)]
pub fn choice(n: u32) -> u32 {
    unsafe { sym_choice(n) }
}
#[inline(always)]
pub fn assume(b: bool) {
    unsafe { sym_assume(b) }
}
#[inline(always)]
pub fn check(b: bool, msg: &'static str) {
    unsafe { sym_assert(b, msg.as_ptr(), msg.len()) }
}
#[inline(always)]
pub fn out(v: u64) {
    unsafe { sym_out(v) }
}
#[inline(always)]
pub fn param(i: usize) -> u64 {
    unsafe { sym_param(i as u32) }
}
#[inline(always)]
pub fn cover(i: u32) {
    unsafe { sym_cover(i) }
}
pub fn out_bytes(b: &[u8]) {
    out(b.len() as u64);
    for x in b {
        out(*x as u64);
    }
}

#[cfg(not(feature = "native"))]
mod rt {
    use core::alloc::{GlobalAlloc, Layout};
    unsafe extern "C" {
        fn sym_alloc(s: usize, a: usize) -> *mut u8;
        fn sym_realloc(p: *mut u8, old: usize, a: usize, new: usize) -> *mut u8;
        fn sym_free(p: *mut u8, s: usize, a: usize);
        fn sym_panic() -> !;
    }
    struct A;
    unsafe impl GlobalAlloc for A {
        unsafe fn alloc(&self, l: Layout) -> *mut u8 {
            unsafe { sym_alloc(l.size(), l.align()) }
        }
        unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
            unsafe { sym_free(p, l.size(), l.align()) }
        }
        unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
            unsafe { sym_realloc(p, l.size(), l.align(), n) }
        }
    }
    #[global_allocator]
    static G: A = A;
    #[panic_handler]
    fn ph(_: &core::panic::PanicInfo) -> ! {
        unsafe { sym_panic() }
    }
}
