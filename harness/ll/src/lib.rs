//! Symbolic build: the harness plus the allocator and intrinsics the executor provides.
extern crate alloc;
use core::alloc::{GlobalAlloc, Layout};
extern "C" {
    fn sym_alloc(n: usize, a: usize) -> *mut u8;
    fn sym_free(p: *mut u8, n: usize, a: usize);
}
struct A;
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        sym_alloc(l.size(), l.align())
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        sym_free(p, l.size(), l.align())
    }
}
#[global_allocator]
static G: A = A;

#[path = "../../src/mod.rs"]
pub mod h;
