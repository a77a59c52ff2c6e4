//! An allocator that counts, per thread, what is held.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Counting;
thread_local! {
    static BYTES: Cell<isize> = const { Cell::new(0) };
    static BLOCKS: Cell<isize> = const { Cell::new(0) };
}
fn note(bytes: isize, blocks: isize) {
    let _ = BYTES.try_with(|b| b.set(b.get() + bytes));
    let _ = BLOCKS.try_with(|b| b.set(b.get() + blocks));
}
/// No history of any check needs anything near this much; one that asks for more ends the process.
const MOST: isize = 3 << 30;
fn too_much(more: usize) -> bool {
    let over = BYTES.try_with(|b| b.get().saturating_add(more.min(isize::MAX as usize) as isize) > MOST).unwrap_or(false);
    if over {
        use std::io::Write;
        let _ = std::io::stderr().write_all(b"A SINGLE THREAD HOLDS OVER 3 GB\n");
    }
    over
}
// SAFETY: everything is passed on to the system's allocator.
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if too_much(l.size()) {
            return std::ptr::null_mut();
        }
        let p = System.alloc(l);
        if !p.is_null() {
            note(l.size() as isize, 1)
        }
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if too_much(l.size()) {
            return std::ptr::null_mut();
        }
        let p = System.alloc_zeroed(l);
        if !p.is_null() {
            note(l.size() as isize, 1)
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        note(-(l.size() as isize), -1);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        if new > l.size() && too_much(new - l.size()) {
            return std::ptr::null_mut();
        }
        let q = System.realloc(p, l, new);
        if !q.is_null() {
            note(new as isize - l.size() as isize, 0)
        }
        q
    }
}

/// What some calls left allocated.
#[derive(Clone, Copy, Default, PartialEq, Debug)]
pub struct Held {
    pub bytes: isize,
    pub blocks: isize,
}
impl std::ops::Add for Held {
    type Output = Held;
    fn add(self, o: Held) -> Held {
        Held { bytes: self.bytes + o.bytes, blocks: self.blocks + o.blocks }
    }
}
impl std::fmt::Display for Held {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{} bytes in {} allocations", self.bytes, self.blocks)
    }
}
fn held() -> Held {
    Held { bytes: BYTES.get(), blocks: BLOCKS.get() }
}
/// Adds to `own` what `f` leaves allocated, in this thread.
pub fn count<T>(own: &mut Held, f: impl FnOnce() -> T) -> T {
    let before = held();
    let out = f();
    let after = held();
    own.bytes += after.bytes - before.bytes;
    own.blocks += after.blocks - before.blocks;
    out
}
