//! Allocator for the monitors: large blocks (the memory of a JitMemory) get their own mapping with
//! inaccessible guard regions on both sides, so that any access outside the block faults, and can be
//! given back explicitly.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering::*};

pub struct Guarded;

const BIG: usize = 64 << 20;
pub const GUARD: usize = 64 << 20;
const SLOTS: usize = 4096;
static ADDR: [AtomicUsize; SLOTS] = [const { AtomicUsize::new(0) }; SLOTS];
static SIZE: [AtomicUsize; SLOTS] = [const { AtomicUsize::new(0) }; SLOTS];
static BIGS: AtomicUsize = AtomicUsize::new(0);

unsafe fn map(size: usize, align: usize) -> *mut u8 {
    let align = align.max(4096);
    let total = size + align + 2 * GUARD;
    let p = libc::mmap(std::ptr::null_mut(), total, libc::PROT_NONE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE, -1, 0);
    if p == libc::MAP_FAILED {
        return std::ptr::null_mut();
    }
    let lo = p as usize;
    let a = (lo + GUARD + align - 1) & !(align - 1);
    // trim to guard | block | guard
    if a - GUARD > lo {
        libc::munmap(lo as *mut _, a - GUARD - lo);
    }
    let end = (a + size + 4095) & !4095;
    if lo + total > end + GUARD {
        libc::munmap((end + GUARD) as *mut _, lo + total - end - GUARD);
    }
    libc::syscall(libc::SYS_mprotect, a, end - a, (libc::PROT_READ | libc::PROT_WRITE) as libc::c_long);
    for i in 0..SLOTS {
        if ADDR[i].compare_exchange(0, a, SeqCst, SeqCst).is_ok() {
            SIZE[i].store(end - a, SeqCst);
            break;
        }
    }
    BIGS.fetch_add(1, SeqCst);
    a as *mut u8
}

/// Unmap the big block containing `addr` (if this allocator made it).
pub fn free_big(addr: usize) -> bool {
    for i in 0..SLOTS {
        let a = ADDR[i].load(SeqCst);
        let s = SIZE[i].load(SeqCst);
        if a != 0 && s != 0 && addr >= a && addr < a + s {
            SIZE[i].store(0, SeqCst);
            unsafe { libc::munmap((a - GUARD) as *mut _, s + 2 * GUARD) };
            ADDR[i].store(0, SeqCst);
            return true;
        }
    }
    false
}

/// Number of big blocks allocated so far.
pub fn bigs() -> usize {
    BIGS.load(SeqCst)
}

unsafe impl GlobalAlloc for Guarded {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if l.size() >= BIG {
            if crate::fault::refuse_memory() {
                return std::ptr::null_mut();
            }
            map(l.size(), l.align())
        } else {
            System.alloc(l)
        }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if l.size() >= BIG {
            free_big(p as usize);
        } else {
            System.dealloc(p, l)
        }
    }
}

#[cfg(not(feature = "sysalloc"))]
#[global_allocator]
static G: Guarded = Guarded;

/// Bounds of the big block containing `addr`.
pub fn block(addr: usize) -> Option<(usize, usize)> {
    for i in 0..SLOTS {
        let a = ADDR[i].load(SeqCst);
        let s = SIZE[i].load(SeqCst);
        if a != 0 && s != 0 && addr >= a && addr < a + s {
            return Some((a, a + s));
        }
    }
    None
}
