//! Faults injected into the system calls an instance is created with: the system refuses memory or protection.
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering::*};

/// mprotect calls until one is refused; negative: none is
static PROT: AtomicI64 = AtomicI64::new(-1);
/// large allocations until one is refused; negative: none is
static MEM: AtomicI64 = AtomicI64::new(-1);
/// refuse all later ones, too
static ALL: AtomicU64 = AtomicU64::new(0);
static REFUSED: AtomicU64 = AtomicU64::new(0);

pub fn arm(prot: i64, mem: i64, all: bool) {
    PROT.store(prot, SeqCst);
    MEM.store(mem, SeqCst);
    ALL.store(all as u64, SeqCst);
    REFUSED.store(0, SeqCst);
}

/// stop refusing; how many calls were refused
pub fn disarm() -> u64 {
    PROT.store(-1, SeqCst);
    MEM.store(-1, SeqCst);
    REFUSED.load(SeqCst)
}

fn hit(c: &AtomicI64) -> bool {
    let v = c.load(SeqCst);
    if v < 0 {
        return false;
    }
    if v > 0 {
        c.store(v - 1, SeqCst);
        return false;
    }
    if ALL.load(SeqCst) == 0 {
        c.store(-1, SeqCst);
    }
    REFUSED.fetch_add(1, SeqCst);
    true
}

pub fn refuse_memory() -> bool {
    hit(&MEM)
}

/// Takes the place of the C library's function.
#[cfg(not(feature = "sysalloc"))]
#[no_mangle]
pub unsafe extern "C" fn mprotect(a: *mut libc::c_void, n: libc::size_t, prot: libc::c_int) -> libc::c_int {
    if hit(&PROT) {
        *libc::__errno_location() = libc::ENOMEM;
        return -1;
    }
    libc::syscall(libc::SYS_mprotect, a, n, prot as libc::c_long) as libc::c_int
}
