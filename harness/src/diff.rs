//! Differential state monitor: every planned instruction is emitted by monoasm, run in place,
//! and compared with the same instruction assembled by GNU as and run from the same state.
use crate::eng::{self, St};
use crate::rng::Rng;
use crate::tm::*;
use crate::util::*;
use monoasm::*;
use std::fmt::Write;

#[derive(Clone, Debug)]
pub struct Case {
    pub t: usize,
    pub o: Ops,
    pub seed: u64,
    pub place: u8,
}

pub const DISPS: [i64; 26] = [
    0, 1, -1, 2, 8, -8, 63, 126, 127, 128, 129, 255, 256, -126, -127, -128, -129, -130, -256, 4096, 0x12345,
    i32::MAX as i64 - 1, i32::MAX as i64, i32::MIN as i64 + 1, i32::MIN as i64, -0x12345,
];

pub fn rnd_disp(r: &mut Rng) -> i64 {
    match r.below(8) {
        0 => 0,
        1..=3 => *r.pick(&DISPS),
        4 => r.next() as i8 as i64,
        5 => r.range(-260, 260),
        _ => r.next() as i32 as i64,
    }
}

pub fn imm_values(k: ImmK) -> Vec<i64> {
    let mut v: Vec<i64> = vec![];
    let edge = |x: i64, v: &mut Vec<i64>| {
        for d in -2..=2 {
            v.push(x.wrapping_add(d));
        }
    };
    match k {
        ImmK::None => vec![0],
        ImmK::U8 => (0..=255).collect(),
        ImmK::Sh => {
            v.extend(-130..=260);
            edge(1 << 16, &mut v);
            edge(1 << 32, &mut v);
            edge(-(1 << 16), &mut v);
            edge(i64::MAX, &mut v);
            v
        }
        _ => {
            for p in 0..63 {
                if [0, 7, 8, 15, 16, 31, 32, 33, 47, 62].contains(&p) {
                    edge(1i64 << p, &mut v);
                    edge(-(1i64 << p), &mut v);
                } else {
                    v.extend([1i64 << p, -(1i64 << p), (1i64 << p) - 1]);
                }
            }
            // out of range, with a tail that would fit
            for t in [0i64, 1, 0x7f, 0x80, 0xff, 0x7fff, 0x8000, 0x7fff_ffff, 0x8000_0000] {
                for h in [1i64 << 16, 1 << 32, 1 << 33, 1 << 40, 1 << 48, -(1 << 33), -(1 << 16)] {
                    v.push(h | t);
                }
            }
            edge(i64::MAX, &mut v);
            edge(0x5555, &mut v);
            edge(0x1_0000_007f, &mut v);
            edge(0x1234_5678, &mut v);
            v.sort();
            v.dedup();
            v
        }
    }
}

pub fn rnd_imm(r: &mut Rng, k: ImmK) -> i64 {
    match k {
        ImmK::None => 0,
        ImmK::S8 => r.next() as i8 as i64,
        ImmK::U8 => r.below(256) as i64,
        ImmK::Sh => r.below(128) as i64,
        ImmK::Small => r.below(101) as i64,
        ImmK::S16 => if r.chance(1, 2) { r.next() as i8 as i64 } else { r.next() as i16 as i64 },
        ImmK::S32 | ImmK::S32x => match r.below(4) {
            0 | 1 => r.next() as i8 as i64,
            2 => r.int() as i32 as i64,
            _ => r.next() as i32 as i64,
        },
        ImmK::S64 => r.int() as i64,
    }
}

fn rnd_ops(r: &mut Rng, t: &Tmpl) -> Ops {
    if let Some(o) = t.lit {
        return o;
    }
    let mut o = Ops::zero();
    o.a = r.below(16);
    o.b = r.below(16);
    if t.mem.has_base() {
        o.m = r.below(16);
        // registers with special encodings more often
        if r.chance(1, 3) {
            o.m = *r.pick(&[4, 5, 12, 13]);
        }
        o.x = r.below(16);
        if r.chance(1, 5) {
            o.x = *r.pick(&[5, 12, 13, 0, 8]);
        }
        if o.x == 4 {
            o.x = 12;
        }
        o.d = rnd_disp(r);
        fix_disp(t, &mut o);
        if t.hint == Hint::Stack && o.m == 4 {
            o.d = r.range(-100, 100) * 8;
        }
    }
    o.i = rnd_imm(r, t.imm);
    o
}

/// `[base - (d)]` with d = -2^31 has no encoding.
fn fix_disp(t: &Tmpl, o: &mut Ops) {
    if matches!(t.mem, Mem::Bm | Mem::Xm) && o.d == i32::MIN as i64 {
        o.d = i32::MIN as i64 + 1;
    }
}

/// The cases of one part of a check.  Deterministic in its arguments.
pub fn plan(mode: &str, ts: &[&'static Tmpl], seed: u64, part: u64, parts: u64, scale: u64) -> Vec<Case> {
    let mut r = Rng::sub(seed, 0x91A4 ^ (part << 20));
    let mut v: Vec<Case> = vec![];
    let mut n = 0u64;
    // every case gets an ordinal; a part keeps those congruent to it
    let mut push = |v: &mut Vec<Case>, r: &mut Rng, t: usize, o: Ops| {
        n += 1;
        let s = r.next();
        if n % parts == part {
            v.push(Case { t, o, seed: s, place: (s >> 40) as u8 % 6 });
        }
    };
    let is_sse = |t: &Tmpl| t.fam == "sse";
    match mode {
        // register forms, all register pairs
        "reg" | "sse" => {
            for (k, t) in ts.iter().enumerate() {
                if t.lit.is_some() || is_sse(t) != (mode == "sse") {
                    continue;
                }
                if t.mem != Mem::None {
                    if mode == "sse" {
                        for _ in 0..80 * scale {
                            let o = rnd_ops(&mut r, t);
                            push(&mut v, &mut r, k, o);
                        }
                    }
                    continue;
                }
                let na = if t.slots.contains(['a', 'A']) { 16 } else { 1 };
                let nb = if t.slots.contains(['b', 'B']) { 16 } else { 1 };
                for a in 0..na {
                    for b in 0..nb {
                        let reps = if na * nb == 1 { 50 } else if nb == 1 || na == 1 { 8 } else { 1 };
                        for _ in 0..reps * scale {
                            let mut o = rnd_ops(&mut r, t);
                            o.a = a;
                            o.b = b;
                            push(&mut v, &mut r, k, o);
                        }
                    }
                }
                if mode == "sse" && t.imm == ImmK::U8 {
                    for i in 0..256 {
                        let mut o = rnd_ops(&mut r, t);
                        o.i = i;
                        push(&mut v, &mut r, k, o);
                    }
                }
            }
        }
        "mem" => {
            for (k, t) in ts.iter().enumerate() {
                if t.lit.is_some() || t.mem == Mem::None {
                    continue;
                }
                if t.mem == Mem::Rip {
                    for a in 0..16 {
                        for pl in 0..6 {
                            for _ in 0..scale {
                                let mut o = rnd_ops(&mut r, t);
                                o.a = a;
                                o.b = a;
                                let _ = pl;
                                push(&mut v, &mut r, k, o);
                            }
                        }
                    }
                    continue;
                }
                // all base x index pairs
                for m in 0..16 {
                    for x in 0..16 {
                        if !t.mem.has_index() && x >= 6 {
                            break;
                        }
                        if x == 4 && t.mem.has_index() {
                            continue;
                        }
                        for _ in 0..scale {
                            let mut o = rnd_ops(&mut r, t);
                            o.m = m;
                            o.x = x;
                            if t.hint == Hint::Stack && m == 4 {
                                o.d = r.range(-100, 100) * 8;
                            }
                            push(&mut v, &mut r, k, o);
                        }
                    }
                }
            }
            // the full base x index x displacement grid for two forms per encoder entry point
            let grid = [
                "lea R(o.a)", "movb [R(o.m)", "movq R(o.a), [R(o.m)", "addb [R(o.m)", "movw [R(o.m)", "movsd xmm", "cmpl [R(o.m)",
                "movl R(o.a), [R",
            ];
            for (gi, g) in grid.iter().enumerate() {
                if scale < 4 && gi % 2 == (seed % 2) as usize {
                    continue;
                }
                for (k, t) in ts.iter().enumerate() {
                    if t.lit.is_some() || !t.mem.has_base() || !t.name.starts_with(g) {
                        continue;
                    }
                    for m in 0..16 {
                        for x in 0..16 {
                            if x == 4 && t.mem.has_index() || !t.mem.has_index() && x > 0 {
                                continue;
                            }
                            for d in DISPS {
                                if !t.mem.has_disp() && d != 0 {
                                    continue;
                                }
                                if t.mem.has_index() && scale < 4 && !r.chance(1, 6) {
                                    continue;
                                }
                                let mut o = rnd_ops(&mut r, t);
                                o.m = m;
                                o.x = x;
                                o.d = d;
                                fix_disp(t, &mut o);
                                push(&mut v, &mut r, k, o);
                            }
                        }
                    }
                }
            }
        }
        "imm" => {
            for (k, t) in ts.iter().enumerate() {
                if t.lit.is_some() || t.imm == ImmK::None {
                    continue;
                }
                let vals = imm_values(t.imm);
                let regs = if t.mem == Mem::None { 16 } else { 1 };
                for a in 0..regs {
                    for (vi, i) in vals.iter().enumerate() {
                        if regs > 1 && vals.len() > 150 && scale < 4 && (vi as u64 + a + seed) % 4 != 0 && a != 0 {
                            continue;
                        }
                        let mut o = rnd_ops(&mut r, t);
                        o.a = if regs == 16 { a } else { r.below(16) };
                        o.i = *i;
                        push(&mut v, &mut r, k, o);
                    }
                }
                for _ in 0..40 * scale {
                    let mut o = rnd_ops(&mut r, t);
                    if r.chance(1, 3) && t.imm != ImmK::U8 {
                        o.i = r.int() as i64;
                    }
                    push(&mut v, &mut r, k, o);
                }
            }
        }
        "cond" => {
            for (k, t) in ts.iter().enumerate() {
                if t.lit.is_some() || t.fam != "cond" && t.fam != "stack" {
                    continue;
                }
                let reps = if t.fam == "stack" { 120 } else { 8 };
                for _ in 0..reps * scale {
                    let o = rnd_ops(&mut r, t);
                    push(&mut v, &mut r, k, o);
                }
            }
        }
        "memlite" => {
            for (k, t) in ts.iter().enumerate() {
                if t.lit.is_some() || t.mem == Mem::None || is_sse(t) {
                    continue;
                }
                for _ in 0..8 * scale {
                    let o = rnd_ops(&mut r, t);
                    push(&mut v, &mut r, k, o);
                }
            }
        }
        "lit" | "lit-int" | "lit-mem" | "lit-sse" | "lit-imm" | "lit-cond" => {
            for (k, t) in ts.iter().enumerate() {
                let keep = match mode {
                    "lit-int" => !is_sse(t),
                    "lit-mem" => t.mem != Mem::None,
                    "lit-sse" => is_sse(t),
                    "lit-imm" => t.imm != ImmK::None,
                    "lit-cond" => t.fam == "cond" || t.fam == "stack",
                    _ => true,
                };
                if !keep {
                    continue;
                }
                for _ in 0..scale.max(1) * 2 {
                    push(&mut v, &mut r, k, t.lit.unwrap());
                }
            }
        }
        _ => panic!("mode"),
    }
    v
}

/// Reference source for the planned cases.
pub fn asm_text(ts: &[&'static Tmpl], cases: &[Case]) -> String {
    let mut s = String::from(".intel_syntax noprefix\n.text\nbase:\n");
    for (n, c) in cases.iter().enumerate() {
        let t = ts[c.t];
        if !t.imm_rule(c.o.i).1 {
            s += ".pushsection .tab\n.long 0,0,0\n.popsection\n";
            continue;
        }
        let ripnum = matches!(t.mem, Mem::RipNum | Mem::RipNumM);
        if ripnum {
            s += ".skip 1100\n";
        }
        let cell = format!("x{}", n);
        let _ = writeln!(s, "c{}: {}\ne{}: .byte 255,37,0,0,0,0\n.quad 0", n, t.text(&c.o, &cell), n);
        if ripnum {
            let _ = writeln!(s, ".skip 1100\n.set x{}, e{}+({})", n, n, t.disp(&c.o));
        } else if t.mem == Mem::Rip {
            let _ = writeln!(s, ".balign 16\nx{}: .skip 32", n);
        } else {
            let _ = writeln!(s, ".set x{}, e{}", n, n);
        }
        let _ = writeln!(s, ".pushsection .tab\n.long c{0}-base,e{0}-base,x{0}-base\n.popsection", n);
    }
    s
}

/// Build an initial state for a case such that its memory operand hits the arena.
pub fn make_state(r: &mut Rng, t: &Tmpl, o: &Ops, arena: u64) -> St {
    let mut g = [0u64; 16];
    for v in g.iter_mut() {
        *v = r.int();
    }
    let mut xmm = [[0u64; 2]; 16];
    for x in xmm.iter_mut() {
        *x = [r.f64bits(), r.f64bits()];
    }
    let mut flags = 0;
    for b in [0, 2, 4, 6, 7, 11] {
        flags |= (r.next() & 1) << b;
    }
    let mxcsr = if r.chance(1, 4) { 0x1f80 | r.below(4) << 13 } else { 0x1f80 };
    match t.hint {
        Hint::Div(w, signed) => {
            // keep most quotients in range
            if r.chance(7, 8) {
                if w == 8 {
                    g[2] = if signed { ((g[0] as i64) >> 63) as u64 } else { 0 };
                } else {
                    let hi = r.next() & !0xffff_ffff;
                    g[2] = hi | if signed { ((g[0] as i32) >> 31) as u32 as u64 } else { 0 };
                }
                if r.chance(1, 3) {
                    // a genuinely double-width dividend with a large divisor
                    g[2] = (g[2] & !0xff) | r.below(16);
                    let k = o.a as usize;
                    if t.mem == Mem::None && k != 0 && k != 2 {
                        g[k] = r.next() | 0x4000_0000_4000_0000;
                        g[k] &= !0x8000_0000_8000_0000;
                    }
                }
            }
        }
        Hint::Stack => g[4] = arena + 1024 + 8 * r.below(256),
        Hint::Leave => g[5] = arena + 1024 + 8 * r.below(256),
        _ => {}
    }
    if t.mem.has_base() {
        let d = t.disp(o) as u64;
        let (m, x) = (o.m as usize, o.x as usize);
        let mut target = arena + 1100 + r.below(1900);
        target &= !(t.malign - 1);
        if t.hint == Hint::Lea && r.chance(1, 2) {
            return St { gpr: g, flags, mxcsr, xmm };
        }
        let s = t.scale as u64;
        if t.hint == Hint::Stack && m == 4 {
            // rsp must stay in the arena: o.d is small by construction
            g[4] = arena + 2048;
            if t.mem.has_index() {
                g[x] = r.below(16).wrapping_sub(8);
            }
        } else if t.hint == Hint::Stack && t.mem.has_index() && x == 4 {
            unreachable!();
        } else if !t.mem.has_index() {
            g[m] = target.wrapping_sub(d);
        } else if m == x {
            // (1+s)*v + d = target
            let k = 1 + s;
            if k == 2 {
                let mut rhs = target.wrapping_sub(d);
                if t.malign <= 1 {
                    rhs &= !1;
                }
                g[m] = (rhs >> 1) | (r.next() & (1 << 63));
            } else {
                let mut inv = 1u64;
                for _ in 0..6 {
                    inv = inv.wrapping_mul(2u64.wrapping_sub(k.wrapping_mul(inv)));
                }
                g[m] = target.wrapping_sub(d).wrapping_mul(inv);
            }
        } else {
            g[m] = target.wrapping_sub(d).wrapping_sub(g[x].wrapping_mul(s));
        }
    }
    St { gpr: g, flags, mxcsr, xmm }
}

const CELL: usize = 32;
const SIDE: usize = 1100;

struct Emitted {
    addr: u64,
    end: u64,
    label: Option<DestLabel>,
    cell: u64,
    err: Option<String>,
}

pub fn run(mode: &str, ts: &[&'static Tmpl], cases: &[Case], text: &[u8], tab: &[u8], seed: u64, only: Option<usize>, skip_dut: bool) -> Report {
    let mut rep = Report::default();
    let arena = eng::init(seed);
    eng::confine();
    let rb = eng::rwx(text.len() + 64);
    unsafe { std::ptr::copy_nonoverlapping(text.as_ptr(), rb, text.len()) };
    let rb = rb as u64;
    let tabw = |i: usize, k: usize| -> i32 { i32::from_le_bytes(tab[i * 12 + k * 4..i * 12 + k * 4 + 4].try_into().unwrap()) };
    assert_eq!(tab.len(), cases.len() * 12);
    let tail = eng::tail();
    for (i, c) in cases.iter().enumerate() {
        if ts[c.t].imm_rule(c.o.i).1 {
            let e = rb + tabw(i, 1) as u64;
            unsafe { std::ptr::copy_nonoverlapping(tail.as_ptr(), e as *mut u8, 14) };
        }
    }
    let mut forms = std::collections::HashSet::new();
    let mut changed = 0u64;
    let batch = 3000;
    let mut lo = 0;
    while lo < cases.len() {
        let hi = (lo + batch).min(cases.len());
        if let Some(o) = only {
            if o < lo || o >= hi {
                lo = hi;
                continue;
            }
        }
        let mut jit = new_jit();
        let mut em: Vec<Emitted> = vec![];
        for i in lo..hi {
            let c = &cases[i];
            let t = ts[c.t];
            progress(i as u64, 1);
            em.push(emit_case(&mut jit, t, c, &tail, &mut rep));
        }
        progress(lo as u64, 4);
        if let Err(m) = caught(|| jit.finalize()) {
            rep.violate("finalize panicked", format!("finalize of a batch of {} instructions panicked: {}", hi - lo, m));
            lo = hi;
            continue;
        }
        for e in em.iter_mut() {
            if let (Some(l), None) = (e.label, &e.err) {
                match caught(|| jit.get_label_u64(l)) {
                    Ok(a) => e.cell = a,
                    Err(m) => e.err = Some(format!("label query: {}", m)),
                }
            }
        }
        for i in lo..hi {
            if only.is_some() && only != Some(i) {
                continue;
            }
            let c = &cases[i];
            let t = ts[c.t];
            let e = &em[i - lo];
            let (must, may) = t.imm_rule(c.o.i);
            rep.add("cases", 1);
            forms.insert(c.t);
            match (&e.err, must, may) {
                (Some(m), true, _) => {
                    rep.violate(&format!("rejected: {}", t.name), format!("case {}: emission panicked ({}) for {}", i, m, t.describe(&c.o)));
                    continue;
                }
                (Some(_), false, _) => {
                    rep.add("rejected", 1);
                    rep.distinct.insert(hash((t.name, c.o.i, "rejected")));
                    continue;
                }
                (None, _, false) => {
                    let bytes = unsafe { std::slice::from_raw_parts(e.addr as *const u8, (e.end - e.addr) as usize) };
                    rep.violate(
                        &format!("silently accepted unencodable immediate: {}", t.name),
                        format!("case {}: {} emitted {:02x?} instead of panicking", i, t.describe(&c.o), bytes),
                    );
                    continue;
                }
                (None, _, true) => {}
            }
            let bytes = unsafe { std::slice::from_raw_parts(e.addr as *const u8, (e.end - e.addr) as usize) }.to_vec();
            let mut nontrivial = false;
            let nstates = if mode == "cond" && t.fam == "cond" { 64 } else if t.hint != Hint::None { 4 } else { 2 };
            let (ra, re, rc) = (rb + tabw(i, 0) as u64, rb + tabw(i, 1) as u64, rb.wrapping_add(tabw(i, 2) as i64 as u64));
            for k in 0..nstates {
                let mut r = Rng::sub(c.seed, k);
                let mut st = make_state(&mut r, t, &c.o, arena.base);
                if nstates == 64 {
                    st.flags = 0;
                    for (j, b) in [0, 2, 4, 6, 7, 11].iter().enumerate() {
                        st.flags |= (k >> j & 1) << b;
                    }
                }
                let ripnum = matches!(t.mem, Mem::RipNum | Mem::RipNumM);
                let mut side = vec![];
                if t.mem == Mem::Rip {
                    for _ in 0..CELL {
                        side.push(0);
                    }
                } else if ripnum {
                    side = vec![0u8; 2 * SIDE];
                }
                for ch in side.chunks_mut(8) {
                    let v = if t.fam == "sse" { r.f64bits() } else { r.int() };
                    let b = v.to_le_bytes();
                    let l = ch.len();
                    ch.copy_from_slice(&b[..l]);
                }
                let put = |a: u64, e: u64, cell: u64| unsafe {
                    if t.mem == Mem::Rip {
                        std::ptr::copy_nonoverlapping(side.as_ptr(), cell as *mut u8, CELL);
                    } else if ripnum {
                        std::ptr::copy_nonoverlapping(side.as_ptr(), (a - SIDE as u64) as *mut u8, SIDE);
                        std::ptr::copy_nonoverlapping(side[SIDE..].as_ptr(), (e + 14) as *mut u8, SIDE - 14);
                    }
                };
                let get = |a: u64, e: u64, cell: u64| -> Vec<u8> {
                    unsafe {
                        if t.mem == Mem::Rip {
                            std::slice::from_raw_parts(cell as *const u8, CELL).to_vec()
                        } else if ripnum {
                            let mut v = std::slice::from_raw_parts((a - SIDE as u64) as *const u8, SIDE).to_vec();
                            v.extend_from_slice(std::slice::from_raw_parts((e + 14) as *const u8, SIDE - 14));
                            v
                        } else {
                            vec![]
                        }
                    }
                };
                // reference
                progress(i as u64, 2);
                put(ra, re, rc);
                let ro = eng::run(ra, &st);
                let rmem = arena.bytes().to_vec();
                let rside = get(ra, re, rc);
                arena.restore();
                if ro.sig != 0 && ro.sig != libc::SIGFPE as u64 {
                    rep.add("reference_faults", 1);
                    if ro.sig == eng::HANG || ro.sig == libc::SIGILL as u64 || rep.counts["reference_faults"] > 2000 {
                        panic!("reference run failed: {:?} {}", ro, t.describe(&c.o));
                    }
                    continue;
                }
                if skip_dut {
                    continue;
                }
                progress(i as u64, 3);
                put(e.addr, e.end, e.cell);
                let out = eng::run(e.addr, &st);
                let dmem = arena.bytes().to_vec();
                let dside = get(e.addr, e.end, e.cell);
                arena.restore();
                rep.add("executions", 1);
                let mut diff = String::new();
                if out.sig != ro.sig {
                    let _ = write!(
                        diff,
                        " signal {} (expected {}) at code+{} addr {:#x};",
                        out.sig,
                        ro.sig,
                        out.rip.wrapping_sub(e.addr) as i64,
                        out.addr
                    );
                } else {
                    for j in 0..16 {
                        let (x, y) = (out.st.gpr[j], ro.st.gpr[j]);
                        let rel = t.hint == Hint::Lea && (t.mem == Mem::Rip || ripnum);
                        let dcell = if ripnum { e.end.wrapping_add(t.disp(&c.o) as u64) } else { e.cell };
                        if x != y && !(rel && x.wrapping_sub(dcell) == y.wrapping_sub(rc)) {
                            let _ = write!(diff, " {}={:#x} (expected {:#x});", Q[j], x, y);
                        }
                    }
                    if ro.sig == 0 {
                        let fm = t.flags_at(&c.o, st.gpr[1]);
                        if (out.st.flags ^ ro.st.flags) & fm != 0 {
                            let _ = write!(diff, " flags={:#x} (expected {:#x});", out.st.flags & fm, ro.st.flags & fm);
                        }
                        for j in 0..16 {
                            if out.st.xmm[j] != ro.st.xmm[j] {
                                let _ = write!(diff, " xmm{}={:x?} (expected {:x?});", j, out.st.xmm[j], ro.st.xmm[j]);
                            }
                        }
                        if out.st.mxcsr != ro.st.mxcsr {
                            let _ = write!(diff, " mxcsr={:#x} (expected {:#x});", out.st.mxcsr, ro.st.mxcsr);
                        }
                    }
                    if dmem != rmem {
                        let k = (0..dmem.len()).find(|k| dmem[*k] != rmem[*k]).unwrap();
                        let _ = write!(diff, " memory[{:#x}]={:#x} (expected {:#x});", k, dmem[k], rmem[k]);
                    }
                    if dside != rside {
                        let k = (0..dside.len()).find(|k| dside[*k] != rside[*k]).unwrap();
                        let _ = write!(diff, " operand cell byte {}={:#x} (expected {:#x});", k, dside[k], rside[k]);
                    }
                }
                if ro.sig != 0 {
                    rep.add("fault_outcomes", 1);
                    nontrivial = true;
                } else if ro.st.gpr != st.gpr || ro.st.xmm != st.xmm || (ro.st.flags ^ st.flags) & eng::FLAGS != 0 || rmem != arena.pristine || rside != side {
                    changed += 1;
                    nontrivial = true;
                }
                if !diff.is_empty() {
                    rep.violate(
                        &format!("wrong effect: {}", t.name),
                        format!("case {} state {}: {} emitted {:02x?}:{} initial {:x?} flags {:#x}", i, k, t.describe(&c.o), bytes, diff, st.gpr, st.flags),
                    );
                    break;
                }
            }
            if nontrivial {
                rep.distinct.insert(hash((t.name, &bytes)));
            }
            if i % 997 == 5 {
                rep.sample(format!("{} -> {:02x?}: {} states, same effect as reference", t.describe(&c.o), bytes, nstates));
            }
        }
        release(&mut jit);
        lo = hi;
    }
    rep.add("forms", forms.len() as u64);
    rep.add("state_changing_executions", changed);
    rep
}

/// Give the block of a finished instance back (instances never free it by design).
pub fn release(jit: &mut JitMemory) {
    let base = &jit[Page(0)][Pos::from(0)] as *const u8;
    crate::galloc::free_big(base as usize);
}

fn emit_case(jit: &mut JitMemory, t: &Tmpl, c: &Case, tail: &[u8], rep: &mut Report) -> Emitted {
    let mut e = Emitted { addr: 0, end: 0, label: None, cell: 0, err: None };
    let mut o = c.o;
    let page = (c.seed >> 50 & 1) as usize;
    jit.select_page(page);
    let cur = |j: &JitMemory| j.get_current_address().as_ptr() as u64;
    if t.mem == Mem::Rip {
        rep.add(&format!("label_placement_{}", c.place), 1);
        let l = match c.place {
            1 => jit.constant(CELL),
            2 => jit.data(CELL),
            3 => {
                let l = jit.label();
                jit.select_page(1 - page);
                jit.align16();
                jit.bind_label(l);
                jit.emit(&[0; CELL]);
                jit.select_page(page);
                l
            }
            4 => {
                let l = jit.label();
                jit.align16();
                jit.bind_label(l);
                jit.emit(&[0; CELL]);
                l
            }
            5 => {
                jit.select_page(1 - page);
                let l = jit.constant(CELL);
                jit.select_page(page);
                l
            }
            _ => jit.label(),
        };
        o.l = l;
        e.label = Some(l);
    }
    let ripnum = matches!(t.mem, Mem::RipNum | Mem::RipNumM);
    if ripnum {
        jit.emit(&[0; SIDE]);
    }
    e.addr = cur(jit);
    let f = t.emit;
    if let Err(m) = caught(|| f(jit, &o)) {
        e.err = Some(m);
    }
    e.end = cur(jit);
    jit.emit(tail);
    if ripnum {
        jit.emit(&[0; SIDE]);
    }
    if t.mem == Mem::Rip && c.place == 0 {
        jit.align16();
        jit.bind_label(o.l);
        jit.emit(&[0; CELL]);
    }
    e
}

/// plan: write the reference source; run: compare.
pub fn main_with(ts: Vec<&'static Tmpl>) {
    let a = Args::parse();
    install_panic_hook();
    let mode = a.s("mode").unwrap_or("reg").to_string();
    let (seed, part, parts, scale) = (a.u("seed", 1), a.u("part", 0), a.u("parts", 1), a.u("scale", 1));
    if mode == "reject" {
        progress_init(a.s("progress"));
        hashes_init(a.s("hashes"));
        let mut rep = Report::default();
        crate::reject::run(&mut rep, &ts, seed, part, parts, scale);
        rep.finish(a.s("hashes"));
        return;
    }
    if mode == "prog" {
        if a.cmd() == "plan" {
            std::fs::write(a.s("out").unwrap(), crate::prog::asm(&ts, seed, part, parts, scale)).unwrap();
        } else {
            progress_init(a.s("progress"));
            hashes_init(a.s("hashes"));
            let text = std::fs::read(a.s("text").unwrap()).unwrap();
            let tab = std::fs::read(a.s("tab").unwrap()).unwrap();
            let only = a.s("only").map(|s| s.parse().unwrap());
            crate::prog::run(&ts, &text, &tab, seed, part, parts, scale, only).finish(a.s("hashes"));
        }
        return;
    }
    let cases = plan(&mode, &ts, seed, part, parts, scale);
    match a.cmd() {
        "plan" => {
            std::fs::write(a.s("out").unwrap(), asm_text(&ts, &cases)).unwrap();
        }
        "run" => {
            progress_init(a.s("progress"));
            hashes_init(a.s("hashes"));
            let text = std::fs::read(a.s("text").unwrap()).unwrap();
            let tab = std::fs::read(a.s("tab").unwrap()).unwrap();
            let only = a.s("only").map(|s| s.parse().unwrap());
            let rep = run(&mode, &ts, &cases, &text, &tab, seed, only, a.s("refonly").is_some());
            rep.finish(a.s("hashes"));
        }
        "case" => {
            let i = a.u("only", 0) as usize;
            println!("{}", ts[cases[i].t].describe(&cases[i].o));
        }
        _ => panic!("usage"),
    }
}
