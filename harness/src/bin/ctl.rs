//! Control transfer monitor: where does each jump, call, return, trap go, and what does it leave behind.
//! Destinations are landing pads that write their identity to rbx and leave through mon_exit.
use monharness::diff::{make_state, release, rnd_disp};
use monharness::eng::{self, Out, St};
use monharness::rng::Rng;
use monharness::tm::*;
use monharness::util::*;
use monoasm::*;
use monoasm_macro::monoasm;

type J = fn(&mut JitMemory, DestLabel);
type M = fn(&mut JitMemory, &Ops);
type D = fn(&mut JitMemory, i64);

macro_rules! jccs { ($($c:ident $m:ident),* $(,)?) => { [$((stringify!($c), stringify!($m), (|jit, l| monoasm!{ jit, $m l; }) as J)),*] } }

fn conds() -> Vec<(&'static str, &'static str, J)> {
    jccs![
        o jo, no jno, b jb, b jc, b jnae, ae jae, ae jnc, e jeq, e je, e jz, ne jne, ne jnz, be jbe, be jna, a ja, a jnbe, s js, ns jns,
        p jp, p jpe, np jnp, np jpo, l jlt, l jnge, ge jge, ge jnl, le jle, le jng, g jgt, g jnle,
    ]
    .to_vec()
}

/// Independent definition of the conditions (Intel SDM vol. 1, appendix B).
fn holds(c: &str, f: u64) -> bool {
    let (cf, pf, zf, sf, of) = (f & 1 != 0, f & 4 != 0, f & 0x40 != 0, f & 0x80 != 0, f & 0x800 != 0);
    match c {
        "o" => of,
        "no" => !of,
        "b" => cf,
        "ae" => !cf,
        "e" => zf,
        "ne" => !zf,
        "be" => cf || zf,
        "a" => !cf && !zf,
        "s" => sf,
        "ns" => !sf,
        "p" => pf,
        "np" => !pf,
        "l" => sf != of,
        "ge" => sf == of,
        "le" => zf || sf != of,
        "g" => !zf && sf == of,
        _ => unreachable!(),
    }
}

macro_rules! regs { ($k:ident: $($m:ident)*) => { [$((stringify!($m), (|jit: &mut JitMemory| monoasm!{ jit, $k $m; }) as fn(&mut JitMemory))),*] } }

fn mem_forms() -> Vec<(&'static str, Mem, u8, bool, M)> {
    macro_rules! m { ($o:ident, $k:ident, $c:expr, $mem:ident, $s:expr, [$($t:tt)*]) => {
        (concat!(stringify!($k), " [", stringify!($($t)*), "]"), Mem::$mem, $s, $c, (|jit, $o| monoasm!{ jit, $k [$($t)*]; }) as M)
    } }
    macro_rules! ml { ($k:ident, $c:expr) => {
        (concat!(stringify!($k), " [rip + l]"), Mem::Rip, 0, $c, (|jit, o| { let l = o.l; monoasm!{ jit, $k [rip + l]; } }) as M)
    } }
    vec![
        m!(o, jmp, false, B, 0, [R(o.m)]),
        m!(o, jmp, false, Bp, 0, [R(o.m) + (o.d)]),
        m!(o, jmp, false, Bm, 0, [R(o.m) - (o.d)]),
        m!(o, jmp, false, X, 1, [R(o.m) + R(o.x)]),
        m!(o, jmp, false, X, 8, [R(o.m) + R(o.x) * 8]),
        m!(o, jmp, false, Xp, 1, [R(o.m) + R(o.x) * 1 + (o.d)]),
        m!(o, jmp, false, Xp, 4, [R(o.m) + R(o.x) * 4 + (o.d)]),
        m!(o, jmp, false, Xm, 2, [R(o.m) + R(o.x) * 2 - (o.d)]),
        ml!(jmp, false),
        m!(o, call, true, B, 0, [R(o.m)]),
        m!(o, call, true, Bp, 0, [R(o.m) + (o.d)]),
        m!(o, call, true, Bm, 0, [R(o.m) - (o.d)]),
        m!(o, call, true, X, 1, [R(o.m) + R(o.x)]),
        m!(o, call, true, X, 4, [R(o.m) + R(o.x) * 4]),
        m!(o, call, true, Xp, 8, [R(o.m) + R(o.x) * 8 + (o.d)]),
        m!(o, call, true, Xp, 2, [R(o.m) + R(o.x) * 2 + (o.d)]),
        m!(o, call, true, Xm, 1, [R(o.m) + R(o.x) * 1 - (o.d)]),
        ml!(call, true),
    ]
}

fn pad(jit: &mut JitMemory, id: u64) -> u64 {
    // never entered from the side: traps before and after
    jit.emit(&[0xcc; 9]);
    let a = here(jit);
    jit.emit(&[0x48, 0xbb]);
    jit.emitq(id);
    jit.emit(&eng::tail());
    jit.emit(&[0xcc; 9]);
    a
}

/// pad at the current place without preceding traps (fall-through target)
fn fall(jit: &mut JitMemory, id: u64) -> u64 {
    let a = here(jit);
    jit.emit(&[0x48, 0xbb]);
    jit.emitq(id);
    jit.emit(&eng::tail());
    a
}

fn here(jit: &JitMemory) -> u64 {
    jit.get_current_address().as_ptr() as u64
}

fn rnd_state(r: &mut Rng, arena: u64) -> St {
    let t = blank(Mem::None, 0);
    let mut st = make_state(r, &t, &Ops::zero(), arena);
    st.gpr[4] = arena + 2048 + 8 * r.below(32);
    st
}

fn blank(mem: Mem, scale: u8) -> Tmpl {
    Tmpl { name: "", gas: "", fam: "ctl", mem, scale, malign: 8, imm: ImmK::None, slots: "", fmask: 0, hint: Hint::Stack, lit: None, emit: |_, _| {} }
}

/// Compare a run with the expectation; `st` is what the state must be at the landing pad.
fn judge(rep: &mut Report, what: &str, out: &Out, mut want: St, id: u64) -> bool {
    rep.add("executions", 1);
    want.gpr[3] = id;
    let mut d = String::new();
    if out.sig != 0 {
        d = format!("signal {} at {:#x} (address {:#x})", out.sig, out.rip, out.addr);
    } else if out.st.gpr[3] != id {
        d = format!("arrived at pad {:#x}, expected {:#x}", out.st.gpr[3], id);
    } else {
        for k in 0..16 {
            if out.st.gpr[k] != want.gpr[k] {
                d += &format!("{}={:#x} (expected {:#x}) ", Q[k], out.st.gpr[k], want.gpr[k]);
            }
        }
        if (out.st.flags ^ want.flags) & eng::FLAGS != 0 {
            d += &format!("flags {:#x} (expected {:#x}) ", out.st.flags & eng::FLAGS, want.flags);
        }
        if out.st.xmm != want.xmm || out.st.mxcsr != want.mxcsr {
            d += "xmm state changed";
        }
    }
    if d.is_empty() {
        return true;
    }
    let key = what.split('|').next().unwrap().trim().to_string();
    rep.violate(&format!("wrong control transfer: {}", key), format!("{}: {}", what, d));
    false
}

fn check_mem(rep: &mut Report, arena: &eng::Arena, what: &str, pushed: Option<(u64, u64)>) {
    let mut want = arena.pristine.clone();
    if let Some((a, v)) = pushed {
        let o = (a - arena.base) as usize;
        want[o..o + 8].copy_from_slice(&v.to_le_bytes());
    }
    let got = arena.bytes().to_vec();
    if got != want {
        let k = (0..got.len()).find(|k| got[*k] != want[*k]).unwrap();
        let key = what.split('|').next().unwrap().trim().to_string();
        let k8 = k & !7;
        let q = |b: &[u8]| u64::from_le_bytes(b[k8..k8 + 8].try_into().unwrap());
        rep.violate(
            &format!("wrong stack/memory effect: {}", key),
            format!("{}: memory at arena+{:#x} is {:#x}, expected {:#x}", what, k8, q(&got), q(&want)),
        );
    }
    arena.restore();
}

const DIST: [usize; 14] = [0, 1, 60, 100, 118, 127, 128, 129, 200, 255, 256, 40000, 70000, 5_000_000];

fn emit_try(rep: &mut Report, what: &str, f: impl FnOnce()) -> bool {
    progress(0, 1);
    progress_text(what);
    match caught(f) {
        Ok(()) => true,
        Err(m) => {
            let key = what.split('|').next().unwrap().trim().to_string();
            rep.violate(&format!("rejected: {}", key), format!("{}: emission panicked: {}", what, m));
            false
        }
    }
}

fn labels_mode(rep: &mut Report, arena: &eng::Arena, r: &mut Rng, part: u64, parts: u64, scale: u64) {
    let mut forms: Vec<(&str, Option<&str>, bool, J)> = conds().into_iter().map(|(c, m, f)| (m, Some(c), false, f)).collect();
    forms.push(("jmp", None, false, |jit, l| monoasm! { jit, jmp l; }));
    forms.push(("call", None, true, |jit, l| monoasm! { jit, call l; }));
    let mut n = 0u64;
    for (name, cond, is_call, f) in forms {
        for dir in 0..4 {
            for dist in DIST {
                n += 1;
                if n % parts != part {
                    continue;
                }
                for rpt in 0..scale {
                if dist >= 5_000_000 && !(r.chance(1, 4) && rpt == 0) {
                    continue;
                }
                let mut jit = JitMemory::new();
                let pg = r.below(2) as usize;
                jit.select_page(pg);
                let lead = r.below(40) as usize;
                jit.emit(&vec![0xccu8; lead]);
                let l = jit.label();
                let what = format!("{} label | direction {} distance {} page {} lead {}", name, ["forward", "backward", "other page", "other page, bound later"][dir], dist, pg, lead);
                let (idt, idf) = (r.next(), r.next());
                let filler = vec![0xccu8; dist];
                let mut site = 0;
                let mut next = 0;
                let mut target = 0;
                let ok = emit_try(rep, &what, || {
                    if dir == 1 {
                        jit.bind_label(l);
                        target = fall(&mut jit, idt);
                        jit.emit(&filler);
                    } else if dir == 2 {
                        jit.select_page(1 - pg);
                        jit.emit(&filler);
                        jit.bind_label(l);
                        target = fall(&mut jit, idt);
                        jit.select_page(pg);
                    }
                    site = here(&jit);
                    f(&mut jit, l);
                    next = here(&jit);
                    fall(&mut jit, idf);
                    if dir == 0 {
                        jit.emit(&filler);
                        jit.bind_label(l);
                        target = fall(&mut jit, idt);
                    } else if dir == 3 {
                        jit.select_page(1 - pg);
                        jit.emit(&filler);
                        jit.bind_label(l);
                        target = fall(&mut jit, idt);
                        if r.chance(1, 2) {
                            jit.select_page(pg);
                        }
                    }
                    jit.finalize();
                });
                rep.add("cases", 1);
                if ok {
                    rep.distinct.insert(hash((name, dir, dist)));
                    progress(n, 3);
                    let combos = if cond.is_some() { 64 } else { 3 };
                    for k in 0..combos {
                        let mut st = rnd_state(r, arena.base);
                        st.flags = 0;
                        for (j, b) in [0, 2, 4, 6, 7, 11].iter().enumerate() {
                            st.flags |= (k >> j & 1) << b;
                        }
                        let out = eng::run(site, &st);
                        let taken = cond.map(|c| holds(c, st.flags)).unwrap_or(true);
                        rep.add(if taken { "taken" } else { "not_taken" }, 1);
                        let mut want = st;
                        let mut pushed = None;
                        if is_call {
                            want.gpr[4] -= 8;
                            pushed = Some((want.gpr[4], next));
                        }
                        let g = judge(rep, &format!("{} | flags {:#x} taken {}", what, st.flags, taken), &out, want, if taken { idt } else { idf });
                        check_mem(rep, arena, &what, pushed);
                        if !g {
                            break;
                        }
                    }
                    if n % 53 == 1 {
                        rep.sample(format!("{}: target {:#x} from {:#x} reached under {} flag combinations", what, target, site, combos));
                    }
                }
                release(&mut jit);
                }
            }
        }
    }
}

fn regs_mode(rep: &mut Report, arena: &eng::Arena, r: &mut Rng, scale: u64) {
    let jmps = regs![jmp: rax rcx rdx rbx rsp rbp rsi rdi r8 r9 r10 r11 r12 r13 r14 r15];
    let calls = regs![call: rax rcx rdx rbx rsp rbp rsi rdi r8 r9 r10 r11 r12 r13 r14 r15];
    let jmpu = regs![jmp: RAX RCX RDX RBX RSP RBP RSI RDI R8 R9 R10 R11 R12 R13 R14 R15];
    let callm = regs![call: Rax Rcx rDX RBX RSP Rbp RSI rdI R8 R9 R10 R11 R12 R13 R14 R15];
    let mut jit = JitMemory::new();
    for (tab, is_call) in [(&jmps, false), (&calls, true), (&jmpu, false), (&callm, true)] {
        for (k, (name, f)) in tab.iter().enumerate() {
            for _ in 0..4 * scale {
                let what = format!("{} {} |", if is_call { "call" } else { "jmp" }, name);
                let (idt, idf) = (r.next(), r.next());
                jit.select_page(r.below(2) as usize);
                let t = pad(&mut jit, idt);
                jit.select_page(r.below(2) as usize);
                let site = here(&jit);
                rep.add("cases", 1);
                if !emit_try(rep, &what, || f(&mut jit)) {
                    continue;
                }
                let next = here(&jit);
                fall(&mut jit, idf);
                jit.finalize();
                rep.distinct.insert(hash((is_call, name)));
                let mut st = rnd_state(r, arena.base);
                st.gpr[k] = t;
                progress(k as u64, 3);
                let out = eng::run(site, &st);
                let mut want = st;
                let mut pushed = None;
                if is_call {
                    want.gpr[4] -= 8;
                    if k == 4 {
                        // the return address went into the traps before the pad
                        let v = unsafe { ((t - 8) as *const u64).read_unaligned() };
                        if v != next {
                            rep.violate("wrong stack/memory effect: call rsp", format!("{}: pushed {:#x}, expected {:#x}", what, v, next));
                        }
                    } else {
                        pushed = Some((want.gpr[4], next));
                    }
                }
                judge(rep, &what, &out, want, idt);
                check_mem(rep, arena, &what, pushed);
            }
        }
    }
    release(&mut jit);
}

fn mem_mode(rep: &mut Report, arena: &eng::Arena, r: &mut Rng, part: u64, parts: u64, scale: u64) {
    let mut n = 0;
    let mut jit = JitMemory::new();
    for (name, mem, s, is_call, f) in mem_forms() {
        for m in 0..16u64 {
            for x in 0..16u64 {
                if x == 4 && mem.has_index() || !mem.has_index() && x >= 4 {
                    continue;
                }
                n += 1;
                if n % parts != part {
                    continue;
                }
                for _ in 0..scale {
                    let mut o = Ops::zero();
                    o.m = m;
                    o.x = if x == 4 { 0 } else { x };
                    o.d = rnd_disp(r);
                    if matches!(mem, Mem::Bm | Mem::Xm) && o.d == i32::MIN as i64 {
                        o.d += 1;
                    }
                    if m == 4 {
                        o.d = r.range(-100, 100) * 8;
                    }
                    let t = blank(mem, s);
                    let what = format!("{} | base {} index {} disp {}", name, m, o.x, o.d);
                    let (idt, idf) = (r.next(), r.next());
                    jit.select_page(r.below(2) as usize);
                    let target = pad(&mut jit, idt);
                    let pg = r.below(2) as usize;
                    jit.select_page(pg);
                    let mut cell = None;
                    if mem == Mem::Rip {
                        let kind = r.below(4);
                        o.l = match kind {
                            0 => jit.const_i64(target as i64),
                            1 => jit.data_i64(target as i64),
                            2 => {
                                // absolute address cell of a label bound at the pad's neighbour
                                let l = jit.label();
                                jit.bind_label(l);
                                fall(&mut jit, idt);
                                jit.abs_address(l)
                            }
                            _ => {
                                let l = jit.label();
                                cell = Some(l);
                                jit.abs_address(l)
                            }
                        };
                    }
                    let site = here(&jit);
                    rep.add("cases", 1);
                    if !emit_try(rep, &what, || f(&mut jit, &o)) {
                        continue;
                    }
                    let next = here(&jit);
                    fall(&mut jit, idf);
                    if let Some(l) = cell {
                        jit.select_page(r.below(2) as usize);
                        jit.bind_label(l);
                        fall(&mut jit, idt);
                    }
                    if !emit_try(rep, &what, || jit.finalize()) {
                        return;
                    }
                    rep.distinct.insert(hash((name, m, o.x, o.d)));
                    let mut st = make_state(r, &t, &o, arena.base);
                    let mut ea = st.gpr[m as usize].wrapping_add(t.disp(&o) as u64);
                    if mem.has_index() {
                        ea = ea.wrapping_add(st.gpr[o.x as usize].wrapping_mul(s as u64));
                    }
                    if mem != Mem::Rip {
                        let off = ea.wrapping_sub(arena.base);
                        if off > 4080 {
                            rep.add("skipped", 1);
                            continue;
                        }
                        arena.bytes()[off as usize..off as usize + 8].copy_from_slice(&target.to_le_bytes());
                    }
                    // rsp may be the index-free base; keep the stack away from the cell
                    if m != 4 && (st.gpr[4] - 8).wrapping_sub(ea.wrapping_sub(8)) < 24 {
                        st.gpr[4] += 64;
                    }
                    let before = arena.bytes().to_vec();
                    progress(n, 3);
                    let out = eng::run(site, &st);
                    let mut want = st;
                    let mut wmem = before;
                    if is_call {
                        want.gpr[4] -= 8;
                        let k = (want.gpr[4] - arena.base) as usize;
                        wmem[k..k + 8].copy_from_slice(&next.to_le_bytes());
                    }
                    judge(rep, &what, &out, want, idt);
                    if arena.bytes() != &wmem[..] {
                        rep.violate(&format!("wrong stack/memory effect: {}", name), format!("{}: memory differs from expectation (return address {:#x})", what, next));
                    }
                    arena.restore();
                    if n % 97 == 3 {
                        rep.sample(format!("{}: pad {:#x} reached through memory", what, target));
                    }
                }
            }
        }
    }
    release(&mut jit);
}

fn misc_mode(rep: &mut Report, arena: &eng::Arena, r: &mut Rng, scale: u64) {
    let mut jit = JitMemory::new();
    let pid = unsafe { libc::getpid() } as u64;
    for _ in 0..300 * scale {
        jit.select_page(r.below(2) as usize);
        let (idt, idf) = (r.next(), r.next());
        rep.add("cases", 4);
        // ret
        let target = pad(&mut jit, idt);
        jit.select_page(r.below(2) as usize);
        let site = here(&jit);
        if emit_try(rep, "ret |", || monoasm! { &mut jit, ret; }) {
            fall(&mut jit, idf);
            let st = rnd_state(r, arena.base);
            let k = (st.gpr[4] - arena.base) as usize;
            arena.bytes()[k..k + 8].copy_from_slice(&target.to_le_bytes());
            progress(1, 3);
            let out = eng::run(site, &st);
            let mut want = st;
            want.gpr[4] += 8;
            judge(rep, "ret |", &out, want, idt);
            arena.restore();
            rep.distinct.insert(hash("ret"));
        }
        // int3
        let site = here(&jit);
        if emit_try(rep, "int3 |", || monoasm! { &mut jit, int3; }) {
            let next = here(&jit);
            fall(&mut jit, idf);
            let st = rnd_state(r, arena.base);
            let out = eng::run(site, &st);
            rep.add("executions", 1);
            if out.sig != libc::SIGTRAP as u64 || out.rip != next || out.st.gpr != st.gpr {
                rep.violate("int3", format!("int3 gave signal {} rip {:#x}, expected SIGTRAP at {:#x}", out.sig, out.rip, next));
            }
            check_mem(rep, arena, "int3 |", None);
            rep.distinct.insert(hash("int3"));
        }
        // syscall
        let site = here(&jit);
        if emit_try(rep, "syscall |", || monoasm! { &mut jit, syscall; }) {
            let next = here(&jit);
            fall(&mut jit, idf);
            let mut st = rnd_state(r, arena.base);
            let bad = r.chance(1, 2);
            st.gpr[0] = if bad { 1000 + r.below(100000) } else { 39 };
            progress(3, 3);
            let out = eng::run(site, &st);
            let mut want = st;
            want.gpr[0] = if bad { (-(libc::ENOSYS as i64)) as u64 } else { pid };
            want.gpr[1] = next;
            want.gpr[11] = (st.flags & eng::FLAGS) | 0x202;
            judge(rep, "syscall |", &out, want, idf);
            check_mem(rep, arena, "syscall |", None);
            rep.distinct.insert(hash(("syscall", bad)));
        }
        // call + ret + push/pop/leave sequence: returns behind the call with the stack balanced
        let f = jit.label();
        let v = r.next() as i64;
        let site = here(&jit);
        let depth = r.below(6) as i64 + 1;
        if emit_try(rep, "call/push/leave/ret sequence |", || {
            let lp = jit.label();
            let done = jit.label();
            monoasm! { &mut jit,
                movq rcx, (depth);
                call f;
            }
            fall(&mut jit, idt);
            if r.chance(1, 2) {
                let p = jit.get_page();
                jit.select_page(1 - p);
            }
            monoasm! { &mut jit,
            f:
                pushq rbp;
                movq rbp, rsp;
                subq rsp, 64;
                pushq rcx;
                subq rcx, 1;
                je done;
                call f;
            done:
                popq rcx;
                addq rax, rcx;
                pushq rax;
                movq [rbp - 8], rax;
                popq rdx;
                jmp lp;
                int3;
            lp:
                leave;
                ret;
            }
            let _ = v;
            jit.finalize();
        }) {
            let st = rnd_state(r, arena.base);
            progress(4, 3);
            let out = eng::run(site, &st);
            let mut want = st;
            let sum: i64 = (1..=depth).sum();
            want.gpr[0] = st.gpr[0].wrapping_add(sum as u64);
            want.gpr[1] = depth as u64;
            want.gpr[2] = want.gpr[0];
            // flags are not compared here
            let mut o2 = out;
            o2.st.flags = want.flags;
            judge(rep, "call/push/leave/ret sequence |", &o2, want, idt);
            arena.restore();
            rep.distinct.insert(hash(("seq", depth)));
        }
    }
    release(&mut jit);
}

/// call (expr): offset from the end of the instruction, 32 bit or rejected
fn callimm_mode(rep: &mut Report, arena: &eng::Arena, r: &mut Rng, part: u64, parts: u64, scale: u64) {
    let f: D = |jit, d| monoasm! { jit, call (d); };
    let mut jit = JitMemory::new();
    let mut vals: Vec<i64> = vec![];
    for p in [0, 7, 8, 15, 16, 24, 31, 32, 33, 40, 62] {
        for d in -3..=3 {
            vals.push((1i64 << p) + d);
            vals.push(-(1i64 << p) + d);
        }
    }
    vals.extend([i64::MAX, i64::MIN, i64::MIN + 1, u32::MAX as i64, 0x1_0000_0010, -0x1_0000_0010]);
    for _ in 0..400 * scale {
        vals.push(r.int() as i64);
        vals.push(r.range(-100000, 100000));
    }
    for (n, v) in vals.into_iter().enumerate() {
        if n as u64 % parts != part {
            continue;
        }
        rep.add("cases", 1);
        let what = format!("call (expr) | offset {}", v);
        let fits = i32::try_from(v).is_ok();
        jit.select_page(r.below(2) as usize);
        progress(n as u64, 1);
        progress_text(&what);
        let site = here(&jit);
        let got = caught(|| f(&mut jit, v));
        let next = here(&jit);
        fall(&mut jit, 7);
        rep.distinct.insert(hash(v));
        match (got, fits) {
            (Err(m), true) => rep.violate("rejected: call (expr)", format!("{}: panicked: {}", what, m)),
            (Ok(()), false) => rep.violate("silently accepted unencodable immediate: call (expr)", what.clone()),
            (Err(_), false) => rep.add("rejected", 1),
            (Ok(()), true) => {
                // run it only when the destination is unmapped or ours: stay inside the same page
                let dest = next.wrapping_add(v as u64);
                let base = jit.get_current_address().as_ptr() as u64 - jit.get_current() as u64;
                if dest >= next + 32 && dest < base + (200 << 20) && v < 100 << 20 {
                    unsafe {
                        let id = r.next();
                        let mut b = vec![0x48u8, 0xbb];
                        b.extend_from_slice(&id.to_le_bytes());
                        b.extend_from_slice(&eng::tail());
                        let save = std::slice::from_raw_parts(dest as *const u8, b.len()).to_vec();
                        std::ptr::copy_nonoverlapping(b.as_ptr(), dest as *mut u8, b.len());
                        let st = rnd_state(r, arena.base);
                        progress(n as u64, 3);
                        let out = eng::run(site, &st);
                        std::ptr::copy_nonoverlapping(save.as_ptr(), dest as *mut u8, b.len());
                        let mut want = st;
                        want.gpr[4] -= 8;
                        judge(rep, &what, &out, want, id);
                        check_mem(rep, arena, &what, Some((want.gpr[4], next)));
                    }
                } else {
                    // observe the destination through a fault or the first bytes: decode rel32 from the end
                    let b = unsafe { std::slice::from_raw_parts((next - 4) as *const u8, 4) };
                    let enc = i32::from_le_bytes(b.try_into().unwrap()) as i64;
                    if enc != v {
                        rep.violate("wrong control transfer: call (expr)", format!("{}: encoded {}", what, enc));
                    }
                    rep.add("decoded", 1);
                }
            }
        }
    }
    // backward, to code emitted before
    for _ in 0..50 * scale {
        jit.select_page(r.below(2) as usize);
        let id = r.next();
        let t = pad(&mut jit, id);
        let fill = r.below(400) as usize;
        jit.emit(&vec![0xccu8; fill]);
        let site = here(&jit);
        let d = t as i64 - (site as i64 + 5);
        let what = format!("call (expr) | backward offset {}", d);
        rep.add("cases", 1);
        if emit_try(rep, &what, || f(&mut jit, d)) {
            let next = here(&jit);
            if next != site + 5 {
                continue;
            }
            fall(&mut jit, 9);
            let st = rnd_state(r, arena.base);
            progress(0, 3);
            let out = eng::run(site, &st);
            let mut want = st;
            want.gpr[4] -= 8;
            judge(rep, &what, &out, want, id);
            check_mem(rep, arena, &what, Some((want.gpr[4], next)));
            rep.distinct.insert(hash(("back", d)));
        }
    }
    release(&mut jit);
}

fn main() {
    let a = Args::parse();
    install_panic_hook();
    let (seed, part, parts, scale) = (a.u("seed", 1), a.u("part", 0), a.u("parts", 1), a.u("scale", 1));
    progress_init(a.s("progress"));
    hashes_init(a.s("hashes"));
    let arena = eng::init(seed);
    eng::confine();
    let mut r = Rng::sub(seed, 0xC71 + part);
    let mut rep = Report::default();
    match a.s("mode").unwrap_or("ctl") {
        "ctl" => {
            labels_mode(&mut rep, &arena, &mut r, part, parts, scale);
            regs_mode(&mut rep, &arena, &mut r, scale);
            mem_mode(&mut rep, &arena, &mut r, part, parts, scale);
            misc_mode(&mut rep, &arena, &mut r, scale);
            callimm_mode(&mut rep, &arena, &mut r, part, parts, scale);
        }
        "callimm" => callimm_mode(&mut rep, &arena, &mut r, part, parts, scale),
        _ => panic!("mode"),
    }
    rep.finish(a.s("hashes"));
}
