//! Memory that has run out: a global allocator which refuses while a starved call is under way.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

thread_local! {
    /// Allocations still granted to the call under way.
    static LEFT: Cell<usize> = const { Cell::new(usize::MAX) };
    /// What the next calls are granted.
    static GRANT: Cell<usize> = const { Cell::new(usize::MAX) };
}
pub struct Alloc;
fn refuse() -> bool {
    LEFT.with(|l| match l.get() {
        usize::MAX => false,
        0 => true,
        n => {
            l.set(n - 1);
            false
        }
    })
}
unsafe impl GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if refuse() {
            return std::ptr::null_mut();
        }
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if refuse() {
            return std::ptr::null_mut();
        }
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if refuse() {
            return std::ptr::null_mut();
        }
        System.realloc(p, l, n)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
}
/// Around f, every real call is granted only `grant` allocations.
pub fn with<R>(grant: usize, f: impl FnOnce() -> R) -> R {
    GRANT.with(|g| g.set(grant));
    let r = f();
    GRANT.with(|g| g.set(usize::MAX));
    r
}
/// Held for exactly the duration of a real call.
pub struct Armed;
impl Armed {
    #[inline]
    pub fn new() -> Armed {
        LEFT.with(|l| l.set(GRANT.with(|g| g.get())));
        Armed
    }
}
impl Drop for Armed {
    #[inline]
    fn drop(&mut self) {
        LEFT.with(|l| l.set(usize::MAX));
    }
}
