//! Execution monitor: runs a piece of machine code between two stubs that load
//! and record the complete user-visible machine state.  Faults raised by the
//! code are caught and are part of the recorded outcome.
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::*};

#[repr(C, align(64))]
#[derive(Clone, Copy)]
pub struct Ctx {
    pub in_gpr: [u64; 16],      // 0
    pub in_flags: u64,          // 128
    pub in_mxcsr: u64,          // 136
    pub in_xmm: [[u64; 2]; 16], // 144
    pub out_gpr: [u64; 16],     // 400
    pub out_flags: u64,         // 528
    pub out_mxcsr: u64,         // 536
    pub out_xmm: [[u64; 2]; 16], // 544
    pub host_rsp: u64,          // 800
    pub entry: u64,             // 808
    pub sig: u64,               // 816
    pub sig_rip: u64,           // 824
    pub sig_addr: u64,          // 832
    pub host_mxcsr: u64,        // 840
}

pub static mut CTX: Ctx = unsafe { std::mem::zeroed() };

std::arch::global_asm!(
    ".globl mon_enter",
    ".globl mon_exit",
    ".globl mon_resume",
    "mon_enter:",
    "push rbx", "push rbp", "push r12", "push r13", "push r14", "push r15",
    "mov [rip + {c} + 800], rsp",
    "stmxcsr [rip + {c} + 840]",
    "ldmxcsr [rip + {c} + 136]",
    "movups xmm0, [rip + {c} + 144]",
    "movups xmm1, [rip + {c} + 160]",
    "movups xmm2, [rip + {c} + 176]",
    "movups xmm3, [rip + {c} + 192]",
    "movups xmm4, [rip + {c} + 208]",
    "movups xmm5, [rip + {c} + 224]",
    "movups xmm6, [rip + {c} + 240]",
    "movups xmm7, [rip + {c} + 256]",
    "movups xmm8, [rip + {c} + 272]",
    "movups xmm9, [rip + {c} + 288]",
    "movups xmm10, [rip + {c} + 304]",
    "movups xmm11, [rip + {c} + 320]",
    "movups xmm12, [rip + {c} + 336]",
    "movups xmm13, [rip + {c} + 352]",
    "movups xmm14, [rip + {c} + 368]",
    "movups xmm15, [rip + {c} + 384]",
    "push qword ptr [rip + {c} + 128]",
    "popfq",
    "mov rax, [rip + {c} + 0]",
    "mov rcx, [rip + {c} + 8]",
    "mov rdx, [rip + {c} + 16]",
    "mov rbx, [rip + {c} + 24]",
    "mov rsp, [rip + {c} + 32]",
    "mov rbp, [rip + {c} + 40]",
    "mov rsi, [rip + {c} + 48]",
    "mov rdi, [rip + {c} + 56]",
    "mov r8, [rip + {c} + 64]",
    "mov r9, [rip + {c} + 72]",
    "mov r10, [rip + {c} + 80]",
    "mov r11, [rip + {c} + 88]",
    "mov r12, [rip + {c} + 96]",
    "mov r13, [rip + {c} + 104]",
    "mov r14, [rip + {c} + 112]",
    "mov r15, [rip + {c} + 120]",
    "jmp [rip + {c} + 808]",
    "mon_exit:",
    "mov [rip + {c} + 432], rsp",
    "mov rsp, [rip + {c} + 800]",
    "pushfq",
    "pop qword ptr [rip + {c} + 528]",
    "cld",
    "mov [rip + {c} + 400], rax",
    "mov [rip + {c} + 408], rcx",
    "mov [rip + {c} + 416], rdx",
    "mov [rip + {c} + 424], rbx",
    "mov [rip + {c} + 440], rbp",
    "mov [rip + {c} + 448], rsi",
    "mov [rip + {c} + 456], rdi",
    "mov [rip + {c} + 464], r8",
    "mov [rip + {c} + 472], r9",
    "mov [rip + {c} + 480], r10",
    "mov [rip + {c} + 488], r11",
    "mov [rip + {c} + 496], r12",
    "mov [rip + {c} + 504], r13",
    "mov [rip + {c} + 512], r14",
    "mov [rip + {c} + 520], r15",
    "stmxcsr [rip + {c} + 536]",
    "movups [rip + {c} + 544], xmm0",
    "movups [rip + {c} + 560], xmm1",
    "movups [rip + {c} + 576], xmm2",
    "movups [rip + {c} + 592], xmm3",
    "movups [rip + {c} + 608], xmm4",
    "movups [rip + {c} + 624], xmm5",
    "movups [rip + {c} + 640], xmm6",
    "movups [rip + {c} + 656], xmm7",
    "movups [rip + {c} + 672], xmm8",
    "movups [rip + {c} + 688], xmm9",
    "movups [rip + {c} + 704], xmm10",
    "movups [rip + {c} + 720], xmm11",
    "movups [rip + {c} + 736], xmm12",
    "movups [rip + {c} + 752], xmm13",
    "movups [rip + {c} + 768], xmm14",
    "movups [rip + {c} + 784], xmm15",
    "mon_resume:",
    "ldmxcsr [rip + {c} + 840]",
    "pop r15", "pop r14", "pop r13", "pop r12", "pop rbp", "pop rbx",
    "ret",
    c = sym CTX,
);

extern "C" {
    fn setitimer(which: i32, new: *const i64, old: *mut i64) -> i32;
    fn mon_enter();
    fn mon_exit();
    fn mon_resume();
}

pub fn exit_addr() -> u64 {
    mon_exit as *const () as u64
}

/// `jmp [rip+0]; .quad mon_exit` - leaves generated code without touching any register.
pub fn tail() -> [u8; 14] {
    let mut t = [0xff, 0x25, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0];
    t[6..].copy_from_slice(&exit_addr().to_le_bytes());
    t
}

static IN: AtomicBool = AtomicBool::new(false);
static EXECS: AtomicU64 = AtomicU64::new(0);
pub const HANG: u64 = 1000;

#[derive(Clone, Copy, PartialEq, Debug)]
pub struct St {
    pub gpr: [u64; 16],
    pub flags: u64,
    pub mxcsr: u64,
    pub xmm: [[u64; 2]; 16],
}

#[derive(Clone, Copy, Debug)]
pub struct Out {
    pub st: St,
    /// 0 or signal number (HANG for a watchdog stop)
    pub sig: u64,
    pub rip: u64,
    pub addr: u64,
}

pub const FLAGS: u64 = 0x8d5; // CF PF AF ZF SF OF

pub fn execs() -> u64 {
    EXECS.load(Relaxed)
}

/// Run the code at `entry` from state `st`.
pub fn run(entry: u64, st: &St) -> Out {
    unsafe {
        let c = &raw mut CTX;
        (*c).in_gpr = st.gpr;
        (*c).in_flags = (st.flags & FLAGS) | 0x202;
        (*c).in_mxcsr = st.mxcsr;
        (*c).in_xmm = st.xmm;
        (*c).entry = entry;
        (*c).sig = 0;
        (*c).sig_rip = 0;
        (*c).sig_addr = 0;
        EXECS.fetch_add(1, Relaxed);
        IN.store(true, SeqCst);
        std::arch::asm!(
            "call {f}", f = sym mon_enter,
            out("rax") _, out("rcx") _, out("rdx") _, out("rsi") _, out("rdi") _,
            out("r8") _, out("r9") _, out("r10") _, out("r11") _,
            clobber_abi("C"));
        IN.store(false, SeqCst);
        Out {
            st: St {
                gpr: (*c).out_gpr,
                flags: (*c).out_flags,
                mxcsr: (*c).out_mxcsr & 0xffff,
                xmm: (*c).out_xmm,
            },
            sig: (*c).sig,
            rip: (*c).sig_rip,
            addr: (*c).sig_addr,
        }
    }
}

extern "C" fn handler(sig: i32, info: *mut libc::siginfo_t, uc: *mut libc::c_void) {
    static LAST: AtomicU64 = AtomicU64::new(0);
    static TICKS: AtomicU64 = AtomicU64::new(0);
    unsafe {
        let inside = IN.load(SeqCst);
        let mut code = sig as u64;
        if sig == libc::SIGPROF {
            let e = EXECS.load(Relaxed);
            if inside && e == LAST.load(Relaxed) {
                if TICKS.fetch_add(1, Relaxed) < 20 {
                    return;
                }
                code = HANG;
            } else {
                LAST.store(e, Relaxed);
                TICKS.store(0, Relaxed);
                return;
            }
        }
        if !inside {
            // fault in the harness itself
            libc::signal(sig, libc::SIG_DFL);
            return;
        }
        let uc = &mut *(uc as *mut libc::ucontext_t);
        let g = &mut uc.uc_mcontext.gregs;
        let c = &raw mut CTX;
        const MAP: [i32; 16] = [
            libc::REG_RAX, libc::REG_RCX, libc::REG_RDX, libc::REG_RBX, libc::REG_RSP, libc::REG_RBP,
            libc::REG_RSI, libc::REG_RDI, libc::REG_R8, libc::REG_R9, libc::REG_R10, libc::REG_R11,
            libc::REG_R12, libc::REG_R13, libc::REG_R14, libc::REG_R15,
        ];
        for (i, r) in MAP.iter().enumerate() {
            (*c).out_gpr[i] = g[*r as usize] as u64;
        }
        (*c).out_flags = g[libc::REG_EFL as usize] as u64;
        (*c).sig = code;
        (*c).sig_rip = g[libc::REG_RIP as usize] as u64;
        (*c).sig_addr = if code == HANG { 0 } else { (*info).si_addr() as u64 };
        let fp = uc.uc_mcontext.fpregs;
        if !fp.is_null() {
            (*c).out_mxcsr = (*fp).mxcsr as u64;
            for i in 0..16 {
                let e = (*fp)._xmm[i].element;
                (*c).out_xmm[i] = [
                    e[0] as u64 | (e[1] as u64) << 32,
                    e[2] as u64 | (e[3] as u64) << 32,
                ];
            }
        }
        g[libc::REG_RIP as usize] = mon_resume as *const () as i64;
        g[libc::REG_RSP as usize] = (*c).host_rsp as i64;
        g[libc::REG_EFL as usize] &= !0x40500;
    }
}

pub const ARENA_SIZE: usize = 4096;
pub const GUARD: usize = 5 << 30;

pub struct Arena {
    pub base: u64,
    pub pristine: Vec<u8>,
}

impl Arena {
    pub fn bytes(&self) -> &'static mut [u8] {
        unsafe { std::slice::from_raw_parts_mut(self.base as *mut u8, ARENA_SIZE) }
    }
    pub fn restore(&self) {
        self.bytes().copy_from_slice(&self.pristine);
    }
}

/// Install fault handlers, watchdog and the guarded arena.
pub fn init(seed: u64) -> Arena {
    unsafe {
        let ss_size = 1 << 17;
        let ss = libc::mmap(std::ptr::null_mut(), ss_size, 3, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS, -1, 0);
        let st = libc::stack_t { ss_sp: ss, ss_flags: 0, ss_size };
        assert_eq!(libc::sigaltstack(&st, std::ptr::null_mut()), 0);
        for s in [libc::SIGSEGV, libc::SIGBUS, libc::SIGILL, libc::SIGFPE, libc::SIGTRAP, libc::SIGPROF] {
            let mut sa: libc::sigaction = std::mem::zeroed();
            sa.sa_sigaction = handler as *const () as usize;
            sa.sa_flags = libc::SA_SIGINFO | libc::SA_ONSTACK | libc::SA_NODEFER;
            if s == libc::SIGPROF {
                sa.sa_flags |= libc::SA_RESTART;
            }
            assert_eq!(libc::sigaction(s, &sa, std::ptr::null_mut()), 0);
        }
        // every 100 ms of CPU time
        let it: [i64; 4] = [0, 100_000, 0, 100_000];
        setitimer(2, it.as_ptr(), std::ptr::null_mut());
        let p = libc::mmap(
            std::ptr::null_mut(),
            2 * GUARD + ARENA_SIZE,
            libc::PROT_NONE,
            libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE,
            -1,
            0,
        );
        assert!(p != libc::MAP_FAILED);
        let base = p as u64 + GUARD as u64;
        assert_eq!(libc::mprotect(base as *mut _, ARENA_SIZE, 3), 0);
        let mut r = crate::rng::Rng::sub(seed, 0xA4E4A);
        let mut pristine = vec![0u8; ARENA_SIZE];
        for ch in pristine.chunks_mut(8) {
            let v = if r.chance(1, 3) { r.f64bits() } else { r.int() };
            ch.copy_from_slice(&v.to_le_bytes());
        }
        let a = Arena { base, pristine };
        a.restore();
        a
    }
}

/// RWX block for reference code.
pub fn rwx(size: usize) -> *mut u8 {
    unsafe {
        let p = libc::mmap(std::ptr::null_mut(), (size + 8191) & !4095, 7, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS, -1, 0);
        assert!(p != libc::MAP_FAILED);
        p as *mut u8
    }
}

/// Forbid system calls by which runaway generated code could affect anything
/// outside this process.
pub fn confine() {
    const DENY: &[i64] = &[
        libc::SYS_execve, libc::SYS_execveat, libc::SYS_fork, libc::SYS_vfork, libc::SYS_unlink, libc::SYS_unlinkat,
        libc::SYS_rmdir, libc::SYS_rename, libc::SYS_renameat, libc::SYS_renameat2, libc::SYS_kill, libc::SYS_tkill,
        libc::SYS_open, libc::SYS_openat, libc::SYS_creat, libc::SYS_truncate, libc::SYS_ftruncate, libc::SYS_chmod,
        libc::SYS_fchmod, libc::SYS_fchmodat, libc::SYS_chown, libc::SYS_mount, libc::SYS_umount2, libc::SYS_ptrace,
        libc::SYS_mkdir, libc::SYS_mkdirat, libc::SYS_link, libc::SYS_linkat, libc::SYS_symlink, libc::SYS_symlinkat,
        libc::SYS_socket, libc::SYS_connect, libc::SYS_setuid, libc::SYS_setgid, libc::SYS_reboot, libc::SYS_chroot,
        libc::SYS_setrlimit, libc::SYS_prlimit64, libc::SYS_mknod, libc::SYS_mknodat, libc::SYS_fchown, libc::SYS_lchown,
        libc::SYS_process_vm_writev, libc::SYS_pidfd_send_signal, libc::SYS_setpriority, libc::SYS_setsid, libc::SYS_shmctl,
    ];
    unsafe {
        let mut prog: Vec<libc::sock_filter> = vec![libc::sock_filter { code: 0x20, jt: 0, jf: 0, k: 0 }];
        for n in DENY {
            prog.push(libc::sock_filter { code: 0x15, jt: 0, jf: 1, k: *n as u32 });
            prog.push(libc::sock_filter { code: 0x06, jt: 0, jf: 0, k: 0x0005_0000 | libc::EPERM as u32 });
        }
        prog.push(libc::sock_filter { code: 0x06, jt: 0, jf: 0, k: 0x7fff_0000 });
        let f = libc::sock_fprog { len: prog.len() as u16, filter: prog.as_mut_ptr() };
        libc::prctl(libc::PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0);
        libc::prctl(libc::PR_SET_SECCOMP, 2, &f as *const _);
    }
}
