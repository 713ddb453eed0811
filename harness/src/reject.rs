//! Monitor of operand rejection: every operand slot of every form gets values that cannot be encoded (the
//! emission must panic) and all values that can (it must not).
use crate::diff::{release, rnd_imm};
use crate::eng::{self, St};
use crate::rng::Rng;
use crate::tm::*;
use crate::util::*;
use monoasm::*;
use monoasm_macro::monoasm;

/// numbers that name no register, plus 16 (rip)
fn bad_regs(r: &mut Rng) -> Vec<u64> {
    let mut v = vec![17, 18, 19, 24, 31, 32, 63, 64, 127, 128, 200, 255, u64::MAX, i64::MAX as u64, 1 << 63];
    for k in [0u64, 1, 3, 4, 5, 7, 8, 15, 16] {
        v.extend([256 + k, (1 << 16) + k, (1u64 << 32) + k]);
    }
    for _ in 0..6 {
        v.push(r.range(17, 256) as u64);
        v.push(r.next() | 1 << 20);
    }
    v
}

fn bad_disps(r: &mut Rng) -> Vec<i64> {
    // effective displacement outside the signed 32-bit range
    let m = 1i64 << 31;
    let mut v = vec![m, m + 1, -m - 1, -m - 2, 1 << 32, (1 << 32) + 8, -(1i64 << 32), (1 << 32) - 1, (1 << 32) - 8, i64::MAX, i64::MIN + 1, (1 << 40) + 4, -(1i64 << 33) + 16, u32::MAX as i64 + 127];
    for _ in 0..6 {
        let x = r.next() as i64;
        if i32::try_from(x).is_err() && x != i64::MIN {
            v.push(x);
        }
        v.push(r.range(m, 1 << 33));
        v.push(-r.range(m + 1, 1 << 33));
    }
    v
}

fn good_disps(r: &mut Rng) -> Vec<i64> {
    let m = 1i64 << 31;
    let mut v = vec![0, 1, -1, 127, 128, -128, -129, 255, 256, 32767, 65536, m - 1, m - 2, -m, -m + 1];
    for _ in 0..8 {
        v.push(r.next() as i32 as i64);
        v.push(r.range(-300, 300));
    }
    v
}

struct X<'a> {
    jit: JitMemory,
    rep: &'a mut Report,
    n: u64,
}

impl X<'_> {
    fn fresh(&mut self) {
        if self.jit.get_current() > 100 << 20 {
            release(&mut self.jit);
            self.jit = JitMemory::new();
        }
    }
    fn must(&mut self, reject: bool, what: String, key: &str, f: impl FnOnce(&mut JitMemory)) {
        self.fresh();
        self.n += 1;
        progress(self.n, 1);
        progress_text(&what);
        let jit = &mut self.jit;
        let res = caught(|| f(jit));
        self.rep.add("cases", 1);
        self.rep.distinct.insert(hash(&what));
        match (reject, res) {
            (true, Err(_)) => self.rep.add("rejected", 1),
            (false, Ok(())) => self.rep.add("accepted", 1),
            (true, Ok(())) => self.rep.violate(&format!("C11: accepted: {}", key), what),
            (false, Err(m)) => self.rep.violate(&format!("C11: refused: {}", key), format!("{}: {}", what, m)),
        }
    }
}

fn operands(r: &mut Rng, t: &Tmpl, l: DestLabel) -> Ops {
    let mut o = Ops::zero();
    o.a = r.below(16);
    o.b = r.below(16);
    o.m = r.below(16);
    o.x = *r.pick(&[0, 1, 2, 3, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15]);
    o.d = r.range(-200, 200);
    o.i = loop {
        let v = rnd_imm(r, t.imm);
        if t.imm_rule(v).0 {
            break v;
        }
    };
    o.l = l;
    o
}

pub fn run(rep: &mut Report, ts: &[&'static Tmpl], seed: u64, part: u64, parts: u64, scale: u64) {
    let arena = eng::init(seed);
    eng::confine();
    let mut r = Rng::sub(seed, 0x4E1 + part);
    let mut x = X { jit: JitMemory::new(), rep, n: 0 };
    for (k, t) in ts.iter().enumerate() {
        if k as u64 % parts != part || t.lit.is_some() {
            continue;
        }
        x.rep.add("forms_covered", 1);
        for _ in 0..scale {
            let l = x.jit.label();
            let base = operands(&mut r, t, l);
            let run = |x: &mut X, o: Ops, reject: bool, why: &str| {
                let key = format!("{}, {}", t.name, why);
                x.must(reject, format!("{} | {} | a={} b={} base={} index={} disp={} imm={}", t.name, why, o.a, o.b, o.m, o.x, o.d, o.i), &key, |jit| (t.emit)(jit, &o));
            };
            for (slot, c) in t.slots.chars().enumerate() {
                let _ = slot;
                let set = |o: &mut Ops, v: u64| if c.to_ascii_lowercase() == 'a' { o.a = v } else { o.b = v };
                let xmm = c.is_ascii_uppercase();
                let why = if xmm { "xmm register number" } else { "register number" };
                for v in 0..16 {
                    let mut o = operands(&mut r, t, l);
                    set(&mut o, v);
                    run(&mut x, o, false, why);
                }
                let mut bad = bad_regs(&mut r);
                bad.push(16);
                for v in bad {
                    let mut o = operands(&mut r, t, l);
                    set(&mut o, v);
                    // the neighbours that take short forms
                    if r.chance(1, 3) {
                        let z = *r.pick(&[0u64, 1, 4, 5]);
                        if c.to_ascii_lowercase() == 'a' { o.b = z } else { o.a = z }
                    }
                    run(&mut x, o, true, if v == 16 && !xmm { "rip as a plain register" } else { why });
                }
            }
            if t.mem.has_base() {
                for v in 0..16 {
                    let mut o = operands(&mut r, t, l);
                    o.m = v;
                    run(&mut x, o, false, "base register");
                }
                for v in bad_regs(&mut r) {
                    let mut o = base;
                    o.m = v;
                    run(&mut x, o, true, "base register");
                }
                let mut o = base;
                o.m = 16;
                if t.mem.has_index() {
                    run(&mut x, o, true, "rip with an index");
                } else {
                    run(&mut x, o, false, "rip as the base");
                }
            }
            if t.mem.has_index() {
                for v in 0..16 {
                    let mut o = operands(&mut r, t, l);
                    o.x = v;
                    run(&mut x, o, v == 4, if v == 4 { "rsp as an index" } else { "index register" });
                    o.m = v;
                    o.x = 4;
                    run(&mut x, o, true, "rsp as an index");
                }
                let mut bad = bad_regs(&mut r);
                bad.push(16);
                for v in bad {
                    let mut o = base;
                    o.x = v;
                    run(&mut x, o, true, if v == 16 { "rip as an index" } else { "index register" });
                }
            }
            if t.mem.has_disp() {
                let minus = matches!(t.mem, Mem::Bm | Mem::Xm);
                for d in good_disps(&mut r) {
                    let mut o = operands(&mut r, t, l);
                    o.d = if minus { -d } else { d };
                    run(&mut x, o, false, "displacement");
                }
                for d in bad_disps(&mut r) {
                    let mut o = operands(&mut r, t, l);
                    o.d = if minus { d.wrapping_neg() } else { d };
                    run(&mut x, o, true, "displacement outside 32 bits");
                }
                let mut o = base;
                o.d = i64::MIN;
                run(&mut x, o, true, "displacement outside 32 bits");
            }
        }
    }
    if part == 0 {
        special(&mut x, &mut r);
        api(&mut x, &mut r);
        rip_base(&mut x, &mut r, &arena);
    }
    x.rep.sample("every register, xmm, base, index and displacement slot of every form, valid and invalid values".into());
    let X { mut jit, .. } = x;
    release(&mut jit);
}

type F1 = fn(&mut JitMemory, u64);
type FL = fn(&mut JitMemory, u64, DestLabel);

/// forms outside the template list
fn special(x: &mut X, r: &mut Rng) {
    let regs: &[(&str, F1)] = &[
        ("pushq R(n)", |jit, n| monoasm! { jit, pushq R(n); }),
        ("popq R(n)", |jit, n| monoasm! { jit, popq R(n); }),
        ("xchgq R(n), R(n)", |jit, n| monoasm! { jit, xchgq R(n), R(n); }),
        ("xchgq rax, R(n)", |jit, n| monoasm! { jit, xchgq rax, R(n); }),
        ("xchgq R(n), rax", |jit, n| monoasm! { jit, xchgq R(n), rax; }),
        ("negq R(n)", |jit, n| monoasm! { jit, negq R(n); }),
        ("setne R(n)", |jit, n| monoasm! { jit, setne R(n); }),
        ("movq R(n), (imm64)", |jit, n| monoasm! { jit, movq R(n), (0x1234_5678_9abc); }),
        ("movb R(n), 1", |jit, n| monoasm! { jit, movb R(n), 1; }),
        ("addq R(n), 1000", |jit, n| monoasm! { jit, addq R(n), 1000; }),
        ("cmpb R(n), 1", |jit, n| monoasm! { jit, cmpb R(n), 1; }),
        ("testb R(n), 1", |jit, n| monoasm! { jit, testb R(n), 1; }),
        ("movsd xmm(n), xmm1", |jit, n| monoasm! { jit, movsd xmm(n), xmm1; }),
        ("movsd xmm1, xmm(n)", |jit, n| monoasm! { jit, movsd xmm1, xmm(n); }),
        ("movq xmm(n), rax", |jit, n| monoasm! { jit, movq xmm(n), rax; }),
        ("movq [rax], xmm(n)", |jit, n| monoasm! { jit, movq [rax], xmm(n); }),
    ];
    for (name, f) in regs {
        for n in 0..16 {
            x.must(false, format!("{} n={}", name, n), name, |jit| f(jit, n));
        }
        let mut b = bad_regs(r);
        b.push(16);
        for n in b {
            x.must(true, format!("{} n={}", name, n), name, |jit| f(jit, n));
        }
    }
    // shift counts
    let sh: &[(&str, F1)] = &[
        ("shlq rbx, R(n)", |jit, n| monoasm! { jit, shlq rbx, R(n); }),
        ("shrq rbx, R(n)", |jit, n| monoasm! { jit, shrq rbx, R(n); }),
        ("salq rbx, R(n)", |jit, n| monoasm! { jit, salq rbx, R(n); }),
        ("sarq rbx, R(n)", |jit, n| monoasm! { jit, sarq rbx, R(n); }),
        ("rolq rbx, R(n)", |jit, n| monoasm! { jit, rolq rbx, R(n); }),
        ("rorq rbx, R(n)", |jit, n| monoasm! { jit, rorq rbx, R(n); }),
        ("shll rbx, R(n)", |jit, n| monoasm! { jit, shll rbx, R(n); }),
        ("shrl rbx, R(n)", |jit, n| monoasm! { jit, shrl rbx, R(n); }),
        ("sall rbx, R(n)", |jit, n| monoasm! { jit, sall rbx, R(n); }),
        ("sarl rbx, R(n)", |jit, n| monoasm! { jit, sarl rbx, R(n); }),
        ("roll rbx, R(n)", |jit, n| monoasm! { jit, roll rbx, R(n); }),
        ("rorl rbx, R(n)", |jit, n| monoasm! { jit, rorl rbx, R(n); }),
        ("shlq [rbx + 8], R(n)", |jit, n| monoasm! { jit, shlq [rbx + 8], R(n); }),
        ("sarl [rbx + rax * 4], R(n)", |jit, n| monoasm! { jit, sarl [rbx + rax * 4], R(n); }),
    ];
    for (name, f) in sh {
        x.must(false, format!("{} n=1", name), name, |jit| f(jit, 1));
        let mut b = bad_regs(r);
        b.extend((0..=16).filter(|n| *n != 1));
        b.push(257);
        for n in b {
            x.must(true, format!("{} n={}", name, n), "shift count register", |jit| f(jit, n));
        }
    }
    // memory operands of control transfers
    let mems: &[(&str, F1)] = &[
        ("jmp [R(n)]", |jit, n| monoasm! { jit, jmp [R(n)]; }),
        ("call [R(n) + 8]", |jit, n| monoasm! { jit, call [R(n) + 8]; }),
        ("pushq [R(n)]", |jit, n| monoasm! { jit, pushq [R(n)]; }),
        ("popq [R(n) - 300]", |jit, n| monoasm! { jit, popq [R(n) - 300]; }),
    ];
    for (name, f) in mems {
        for n in 0..17 {
            x.must(false, format!("{} n={}", name, n), name, |jit| f(jit, n));
        }
        for n in bad_regs(r) {
            x.must(true, format!("{} n={}", name, n), name, |jit| f(jit, n));
        }
    }
    // a label is only addressable relative to rip
    let labs: &[(&str, FL)] = &[
        ("movq rax, [R(n) + label]", |jit, n, l| monoasm! { jit, movq rax, [R(n) + l]; }),
        ("lea rax, [R(n) + label]", |jit, n, l| monoasm! { jit, lea rax, [R(n) + l]; }),
        ("addl [R(n) + label], 5", |jit, n, l| monoasm! { jit, addl [R(n) + l], 5; }),
        ("movsd xmm1, [R(n) + label]", |jit, n, l| monoasm! { jit, movsd xmm1, [R(n) + l]; }),
    ];
    for (name, f) in labs {
        for n in 0..16 {
            let l = x.jit.label();
            x.must(true, format!("{} n={}", name, n), "label displacement without rip", |jit| f(jit, n, l));
        }
        let l = x.jit.label();
        x.must(false, format!("{} n=16", name), name, |jit| f(jit, 16, l));
    }
}

fn api(x: &mut X, r: &mut Rng) {
    for p in [2usize, 3, 4, 100, 255, 256, 257, 1 << 32, (1 << 32) + 1, usize::MAX] {
        x.must(true, format!("select_page({})", p), "page that does not exist", |jit| jit.select_page(p));
        let g = x.jit.get_page();
        if g > 1 {
            x.rep.violate("C11: page that does not exist", format!("selected page {} after select_page({})", g, p));
            x.jit.select_page(0);
        }
    }
    for p in 0..2 {
        x.must(false, format!("select_page({})", p), "select_page", |jit| jit.select_page(p));
    }
    for k in 0..40 {
        // unbound among bound ones
        let ls: Vec<DestLabel> = (0..1 + r.below(5)).map(|_| x.jit.label()).collect();
        let l = *r.pick(&ls);
        for o in &ls {
            if *o != l {
                x.jit.bind_label(*o);
                x.jit.emit(&[0xe9, 0, 0, 0, 0]);
            }
        }
        let c = if k % 2 == 0 { Some(x.jit.const_i64(5)) } else { None };
        if k % 3 == 0 {
            x.must(false, "finalize with an unbound, referenced label".into(), "finalize", |jit| {
                monoasm! { &mut *jit, jmp l; lea rax, [rip + l]; }
                jit.finalize();
            });
        }
        if let (Some(c), true) = (c, k % 3 != 0) {
            x.must(true, "address of a constant before finalization".into(), "label without a position", |jit| {
                jit.get_label_u64(c);
            });
        }
        let q: &[(&str, fn(&mut JitMemory, DestLabel))] = &[
            ("get_label_u64", |jit, l| {
                jit.get_label_u64(l);
            }),
            ("get_label_address", |jit, l| {
                jit.get_label_address(l);
            }),
            ("get_label_addr", |jit, l| {
                jit.get_label_addr::<u64, u64>(l);
            }),
            ("get_label_addr2", |jit, l| {
                jit.get_label_addr2::<u64, u64, u64>(l);
            }),
        ];
        for (n, f) in q {
            x.must(true, format!("{} of an unbound label ({})", n, k), "label without a position", |jit| f(jit, l));
        }
        if let Some(b) = ls.iter().find(|b| **b != l) {
            let b = *b;
            x.must(true, format!("patch to an unbound label ({})", k), "label without a position", |jit| jit.apply_jmp_patch(b, l));
            x.must(true, format!("patch at an unbound label ({})", k), "label without a position", |jit| jit.apply_jmp_patch(l, b));
            x.must(false, format!("patch with bound labels ({})", k), "patch", |jit| jit.apply_jmp_patch(b, b));
        }
        x.jit.bind_label(l);
        for (n, f) in q {
            x.must(false, format!("{} of a bound label ({})", n, k), "bound label", |jit| f(jit, l));
        }
        let p = r.below(2) as usize;
        x.jit.select_page(p);
    }
}

/// R(16) is rip: the operand is relative to the next instruction
fn rip_base(x: &mut X, r: &mut Rng, arena: &eng::Arena) {
    let fs: &[(&str, fn(&mut JitMemory, u64, i64), bool)] = &[
        ("lea r11, [R(16) + (d)]", |jit, n, d| monoasm! { jit, lea r11, [R(n) + (d)]; }, false),
        ("lea r11, [R(16) - (d)]", |jit, n, d| monoasm! { jit, lea r11, [R(n) - (d)]; }, true),
    ];
    x.jit = JitMemory::new();
    for (name, f, minus) in fs {
        for _ in 0..40 {
            let d = if r.chance(1, 2) { r.range(-200, 200) } else { r.next() as i32 as i64 };
            let arg = if *minus { -d } else { d };
            let site = x.jit.get_current_address().as_ptr() as u64;
            x.must(false, format!("{} d={}", name, d), name, |jit| f(jit, 16, arg));
            let next = x.jit.get_current_address().as_ptr() as u64;
            x.jit.emit(&eng::tail());
            let mut st = St { gpr: [7; 16], flags: 0, mxcsr: 0x1f80, xmm: [[0; 2]; 16] };
            st.gpr[4] = arena.base + 2048;
            progress(0, 3);
            let o = eng::run(site, &st);
            x.rep.add("runs", 1);
            let want = next.wrapping_add(d as u64);
            if o.sig != 0 || o.st.gpr[11] != want {
                x.rep.violate("C11: rip as a computed base", format!("{} d={}: signal {} address {:#x}, expected {:#x}", name, d, o.sig, o.st.gpr[11], want));
            }
        }
    }
}
