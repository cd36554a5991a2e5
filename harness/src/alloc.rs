//! Checking allocator: poisons fresh and freed blocks, moves on every realloc, keeps red zones,
//! verifies the layout handed to dealloc and counts the blocks allocated inside gecs calls.
//! It only records errors; it never panics or aborts.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering::Relaxed};

thread_local! {
    static IN_GECS: Cell<bool> = const { Cell::new(false) };
}

/// Blocks that were allocated while the flag was up and are not freed yet.
pub static LIVE: AtomicI64 = AtomicI64::new(0);
/// Allocations (incl. reallocations) made while the flag was up.
pub static COUNT: AtomicU64 = AtomicU64::new(0);
pub static BAD_LAYOUT: AtomicU64 = AtomicU64::new(0);
pub static BAD_FREE: AtomicU64 = AtomicU64::new(0);
pub static BAD_ZONE: AtomicU64 = AtomicU64::new(0);

pub fn errors() -> u64 {
    BAD_LAYOUT.load(Relaxed) + BAD_FREE.load(Relaxed) + BAD_ZONE.load(Relaxed)
}

pub fn take_errors() -> Vec<&'static str> {
    let mut v = Vec::new();
    if BAD_LAYOUT.swap(0, Relaxed) > 0 {
        v.push("memory freed with a layout other than it was allocated with");
    }
    if BAD_FREE.swap(0, Relaxed) > 0 {
        v.push("memory freed that is not an allocated block (double free)");
    }
    if BAD_ZONE.swap(0, Relaxed) > 0 {
        v.push("write past the end of an allocated block");
    }
    v
}

pub struct Flag(bool);
pub fn flag(on: bool) -> Flag {
    Flag(IN_GECS.with(|f| f.replace(on)))
}
impl Drop for Flag {
    fn drop(&mut self) {
        IN_GECS.with(|f| f.set(self.0));
    }
}
/// Runs `f` with its allocations attributed to gecs.
pub fn gecs<R>(f: impl FnOnce() -> R) -> R {
    let _g = flag(true);
    f()
}
/// Runs `f` with its allocations attributed to the harness.
pub fn user<R>(f: impl FnOnce() -> R) -> R {
    let _g = flag(false);
    f()
}

pub struct Checked;

const MAGIC: u64 = 0x6e61_6c69_7665_2121;
const DEAD: u64 = 0x6465_6164_6465_6164;
const ZONE: usize = 16;
const BIG: usize = 1 << 20;

#[repr(C)]
struct Hdr {
    magic: u64,
    size: usize,
    align: usize,
    flag: u64,
}

fn outer(size: usize, align: usize) -> Option<(usize, Layout)> {
    let off = align.max(32);
    let total = size.checked_add(off)?.checked_add(ZONE)?;
    Some((off, Layout::from_size_align(total, align.max(16)).ok()?))
}

unsafe fn fill(p: *mut u8, len: usize, byte: u8) {
    if len <= BIG {
        p.write_bytes(byte, len);
    } else {
        p.write_bytes(byte, 65536);
        p.add(len - 65536).write_bytes(byte, 65536);
    }
}

// Freed blocks stay poisoned for a while before they are reused.
const Q: usize = 2048;
struct Quarantine {
    busy: std::sync::atomic::AtomicBool,
    next: std::cell::UnsafeCell<usize>,
    slots: std::cell::UnsafeCell<[(usize, usize, usize); Q]>,
}
unsafe impl Sync for Quarantine {}
static QUAR: Quarantine = Quarantine {
    busy: std::sync::atomic::AtomicBool::new(false),
    next: std::cell::UnsafeCell::new(0),
    slots: std::cell::UnsafeCell::new([(0, 0, 0); Q]),
};

unsafe fn retire(base: *mut u8, l: Layout) {
    if l.size() > 1 << 16 || QUAR.busy.swap(true, std::sync::atomic::Ordering::Acquire) {
        System.dealloc(base, l);
        return;
    }
    let i = *QUAR.next.get();
    *QUAR.next.get() = (i + 1) % Q;
    let slot = &mut (*QUAR.slots.get())[i];
    let old = *slot;
    *slot = (base as usize, l.size(), l.align());
    QUAR.busy.store(false, std::sync::atomic::Ordering::Release);
    if old.0 != 0 {
        System.dealloc(old.0 as *mut u8, Layout::from_size_align_unchecked(old.1, old.2));
    }
}

unsafe impl GlobalAlloc for Checked {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let Some((off, o)) = outer(l.size(), l.align()) else { return std::ptr::null_mut() };
        let base = System.alloc(o);
        if base.is_null() {
            return base;
        }
        let p = base.add(off);
        let flagged = IN_GECS.try_with(|f| f.get()).unwrap_or(false);
        if flagged {
            LIVE.fetch_add(1, Relaxed);
            COUNT.fetch_add(1, Relaxed);
        }
        (p.sub(32) as *mut Hdr).write(Hdr { magic: MAGIC, size: l.size(), align: l.align(), flag: flagged as u64 });
        fill(p, l.size(), 0xA5);
        p.add(l.size()).write_bytes(0x5C, ZONE);
        p
    }

    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let h = p.sub(32) as *mut Hdr;
        if (*h).magic != MAGIC {
            BAD_FREE.fetch_add(1, Relaxed);
            return;
        }
        let (size, align) = ((*h).size, (*h).align);
        if size != l.size() || align != l.align() {
            BAD_LAYOUT.fetch_add(1, Relaxed);
        }
        for i in 0..ZONE {
            if *p.add(size + i) != 0x5C {
                BAD_ZONE.fetch_add(1, Relaxed);
                break;
            }
        }
        if (*h).flag != 0 {
            LIVE.fetch_sub(1, Relaxed);
        }
        (*h).magic = DEAD;
        fill(p, size, 0xDD);
        let (off, o) = outer(size, align).unwrap();
        retire(p.sub(off), o);
    }

    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        let h = p.sub(32) as *mut Hdr;
        let have = if (*h).magic == MAGIC { (*h).size } else { l.size() };
        let n = self.alloc(Layout::from_size_align_unchecked(new, l.align()));
        if !n.is_null() {
            std::ptr::copy_nonoverlapping(p, n, have.min(new));
            self.dealloc(p, l);
        }
        n
    }
}
