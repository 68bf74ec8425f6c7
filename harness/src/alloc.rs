//! Counting global allocator: bytes and blocks outstanding, per thread
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

#[derive(Copy, Clone, PartialEq, Eq, Debug)]
pub struct Use {
    pub bytes: i64,
    pub blocks: i64,
}
impl From<(i64, i64)> for Use {
    fn from(x: (i64, i64)) -> Use {
        Use { bytes: x.0, blocks: x.1 }
    }
}
impl std::ops::Sub for Use {
    type Output = Use;
    fn sub(self, o: Use) -> Use {
        Use { bytes: self.bytes - o.bytes, blocks: self.blocks - o.blocks }
    }
}

thread_local! {
    static USE: Cell<Use> = const { Cell::new(Use { bytes: 0, blocks: 0 }) };
}

pub fn outstanding() -> Use {
    USE.with(|u| u.get())
}

fn add(bytes: i64, blocks: i64) {
    let _ = USE.try_with(|u| {
        let x = u.get();
        u.set(Use { bytes: x.bytes + bytes, blocks: x.blocks + blocks });
    });
}

/// No case needs anywhere near this; an operation that allocates without end is stopped here (the
/// process aborts, which is attributed to the case) instead of exhausting the machine
const CAP: i64 = 1 << 30;

fn exhausted(more: usize) -> bool {
    USE.try_with(|u| u.get().bytes.saturating_add(more as i64) > CAP).unwrap_or(false)
}

struct Counting;

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if exhausted(l.size()) {
            return std::ptr::null_mut();
        }
        add(l.size() as i64, 1);
        unsafe { System.alloc(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        add(-(l.size() as i64), -1);
        unsafe { System.dealloc(p, l) }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if exhausted(l.size()) {
            return std::ptr::null_mut();
        }
        add(l.size() as i64, 1);
        unsafe { System.alloc_zeroed(l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if n > l.size() && exhausted(n - l.size()) {
            return std::ptr::null_mut();
        }
        add(n as i64 - l.size() as i64, 0);
        unsafe { System.realloc(p, l, n) }
    }
}

#[global_allocator]
static A: Counting = Counting;
