//! Allocator of the checker: memory allocated while a thread is "tracking" comes from an arena in which nothing is
//! ever reused, moved in place or erased by releasing it, so that everything left behind can be found.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Allocator;

#[global_allocator]
static ALLOCATOR: Allocator = Allocator;

const SIZE: usize = 256 << 20;

#[derive(Clone, Copy)]
struct State {
    base: usize,
    from: usize,
    used: usize,
    live: usize,
    on: bool,
}

thread_local! {
    static STATE: Cell<State> = const { Cell::new(State { base: 0, from: 0, used: 0, live: 0, on: false }) };
}

unsafe fn bump(layout: Layout) -> *mut u8 {
    let mut s = STATE.get();
    let align = layout.align().max(16);
    let start = (s.used + align - 1) & !(align - 1);
    if start + layout.size() > SIZE {
        return std::ptr::null_mut();
    }
    s.used = start + layout.size();
    s.live += 1;
    STATE.set(s);
    (s.base + start) as *mut u8
}

fn within(ptr: *mut u8) -> bool {
    let s = STATE.get();
    s.base != 0 && (ptr as usize) >= s.base && (ptr as usize) < s.base + SIZE
}

unsafe impl GlobalAlloc for Allocator {
    unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
        if STATE.get().on {
            bump(layout)
        } else {
            System.alloc(layout)
        }
    }
    unsafe fn dealloc(&self, ptr: *mut u8, layout: Layout) {
        if within(ptr) {
            let mut s = STATE.get();
            s.live -= 1;
            STATE.set(s);
        } else {
            System.dealloc(ptr, layout)
        }
    }
    unsafe fn alloc_zeroed(&self, layout: Layout) -> *mut u8 {
        if STATE.get().on {
            bump(layout) // never used before, hence zero
        } else {
            System.alloc_zeroed(layout)
        }
    }
    unsafe fn realloc(&self, ptr: *mut u8, layout: Layout, size: usize) -> *mut u8 {
        if within(ptr) {
            let new = self.alloc(Layout::from_size_align_unchecked(size, layout.align()));
            if !new.is_null() {
                std::ptr::copy_nonoverlapping(ptr, new, layout.size().min(size));
                self.dealloc(ptr, layout);
            }
            new
        } else {
            System.realloc(ptr, layout, size)
        }
    }
}

/// Everything allocated by the function comes from the arena.
pub fn track<T>(f: impl FnOnce() -> T) -> T {
    struct Off;
    impl Drop for Off {
        fn drop(&mut self) {
            let mut s = STATE.get();
            s.on = false;
            STATE.set(s);
        }
    }
    let mut s = STATE.get();
    if s.base == 0 {
        s.base = map();
    }
    s.on = true;
    STATE.set(s);
    let _off = Off;
    f()
}

fn map() -> usize {
    let p = unsafe {
        libc::mmap(std::ptr::null_mut(), SIZE, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE, -1, 0)
    };
    if p == libc::MAP_FAILED {
        eprintln!("no memory");
        std::process::exit(2);
    }
    p as usize
}

/// All memory handed out since the last reset.
pub fn memory() -> &'static [u8] {
    let s = STATE.get();
    if s.base == 0 {
        return &[];
    }
    unsafe { std::slice::from_raw_parts((s.base + s.from) as *const u8, s.used - s.from) }
}

/// Starts over. Should anything still be in use (caches created on first use, for example), the arena goes on behind it.
/// Returns the number of blocks still in use.
pub fn reset() -> usize {
    let mut s = STATE.get();
    if s.live != 0 {
        s.from = s.used;
    } else if s.base != 0 {
        if s.used > 4 << 20 {
            unsafe { libc::madvise(s.base as *mut libc::c_void, SIZE, libc::MADV_DONTNEED) };
        } else {
            unsafe { std::ptr::write_bytes(s.base as *mut u8, 0, s.used) };
        }
        s.from = 0;
        s.used = 0;
    }
    STATE.set(s);
    s.live
}
