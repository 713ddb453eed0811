//! Whole-program monitor: random structured programs (loops, branches, calls, stack frames, constants, data,
//! inline data, page hops, finalizations in the middle) are generated by monoasm and run; the same program,
//! assembled by GNU as, runs from the same state; the complete final states are compared.
use crate::diff::{release, rnd_imm};
use crate::eng::{self, St, FLAGS};
use crate::rng::Rng;
use crate::tm::*;
use crate::util::*;
use monoasm::*;
use monoasm_macro::monoasm;
use std::fmt::Write;

type J = fn(&mut JitMemory, DestLabel);
macro_rules! jccs { ($($g:literal $m:ident),* $(,)?) => { &[$(($g, |jit, l| monoasm!{ jit, $m l; })),*] } }
/// (condition for the reference, emission)
static JCC: &[(&str, J)] = jccs![
    "o" jo, "no" jno, "b" jb, "b" jc, "b" jnae, "ae" jae, "ae" jnc, "e" jeq, "e" je, "e" jz, "ne" jne, "ne" jnz, "be" jbe, "be" jna,
    "a" ja, "a" jnbe, "s" js, "ns" jns, "p" jp, "p" jpe, "np" jnp, "np" jpo, "l" jlt, "l" jnge, "ge" jge, "ge" jnl, "le" jle,
    "le" jng, "g" jgt, "g" jnle,
];

/// flags a condition looks at
fn needs(c: &str) -> u64 {
    match c {
        "o" | "no" => 0x800,
        "b" | "ae" | "c" | "nc" | "nae" | "nb" => 1,
        "e" | "ne" | "z" | "nz" => 0x40,
        "be" | "a" | "na" | "nbe" => 0x41,
        "s" | "ns" => 0x80,
        "p" | "np" | "pe" | "po" => 4,
        "l" | "ge" | "nge" | "nl" => 0x880,
        _ => 0x8c0,
    }
}

#[derive(Clone, Debug)]
enum I {
    /// instruction template with operands; label of a rip-relative item
    T(usize, Ops, Option<usize>),
    Jmp(usize),
    Jcc(usize, usize),
    Call(usize),
    /// through an address cell
    CallCell(usize),
    JmpCell(usize),
    /// lea r13, [rip + l]
    Lea13(usize),
    /// movq r13, [rip + cell]
    Load13(usize),
    Call13,
    Jmp13,
    Push13,
    Push(u64),
    Pop(u64),
    Ret,
    Leave,
    MovRbpRsp,
    SubRsp(i64),
    Bind(usize),
    /// bytes that are never executed
    Fill(usize),
    Align(u8),
    Page(usize),
    Fin,
    /// inline data, written as integer or float
    Dq(Vec<u64>),
    Decl(usize),
}

#[derive(Clone, Copy, Debug)]
enum DK {
    CI64(u64),
    CF64(u64),
    CI32(u32),
    CBytes(usize),
    DI64(u64),
    DI32(u32),
    DBytes(usize),
    /// cell with the address of a label
    Cell(usize),
    /// inline data of so many bytes
    Inline(usize),
}

#[derive(Clone, Debug)]
struct Item {
    lab: usize,
    k: DK,
}

impl Item {
    fn size(&self) -> usize {
        match self.k {
            DK::CI64(_) | DK::CF64(_) | DK::DI64(_) | DK::Cell(_) => 8,
            DK::CI32(_) | DK::DI32(_) => 4,
            DK::CBytes(n) | DK::DBytes(n) | DK::Inline(n) => n,
        }
    }
}

pub struct Prog {
    code: Vec<I>,
    items: Vec<Item>,
    nlab: usize,
    entry: usize,
    /// flags that are defined at the end
    fl: u64,
    loops: usize,
    pairs: usize,
    calls: usize,
    fins: usize,
    hops: usize,
}

const GEN: [u64; 9] = [0, 1, 2, 6, 7, 8, 9, 10, 11];
const CTR: [u64; 3] = [14, 12, 3];
const BASE: u64 = 15;

struct Gen<'a> {
    ts: &'a [&'static Tmpl],
    fam: &'a Fams,
    r: Rng,
    p: Prog,
    page: usize,
    defined: u64,
    /// innermost loop nest, pushed slots, frame slots
    nest: usize,
    depth: usize,
    frame: usize,
    budget: i64,
    /// functions that may be called
    callee: Vec<usize>,
}

/// templates by family
pub struct Fams {
    int: Vec<usize>,
    imm: Vec<usize>,
    mem: Vec<usize>,
    sse: Vec<usize>,
    cond: Vec<usize>,
    by: std::collections::HashMap<&'static str, usize>,
}

pub fn fams(ts: &[&'static Tmpl]) -> Fams {
    let mut f = Fams { int: vec![], imm: vec![], mem: vec![], sse: vec![], cond: vec![], by: Default::default() };
    for (i, t) in ts.iter().enumerate() {
        f.by.entry(t.name).or_insert(i);
        if t.lit.is_some() || t.hint == Hint::Lea && t.mem == Mem::Rip {
            continue;
        }
        match t.fam {
            "sse" => f.sse.push(i),
            "cond" => f.cond.push(i),
            "int" if t.mem != Mem::None => f.mem.push(i),
            "int" if t.imm != ImmK::None => f.imm.push(i),
            "int" => f.int.push(i),
            _ => {}
        }
    }
    f
}

fn mnemonic(t: &Tmpl) -> &'static str {
    t.gas.split(' ').next().unwrap()
}

/// width of the memory operand
fn width(t: &Tmpl) -> usize {
    match t.gas.find("$m").map(|k| t.gas.as_bytes()[k + 2]) {
        Some(b'8') => 8,
        Some(b'4') => 4,
        Some(b'2') => 2,
        Some(b'1') => 1,
        _ => 16,
    }
}

impl<'a> Gen<'a> {
    fn lab(&mut self) -> usize {
        self.p.nlab += 1;
        self.p.nlab - 1
    }

    fn put(&mut self, i: I) {
        self.p.code.push(i);
    }

    fn bind(&mut self, l: usize) {
        // may be reached from elsewhere
        self.defined = 0;
        self.put(I::Bind(l));
    }

    /// a fixed instruction by template name
    fn named(&mut self, name: &str, o: Ops) {
        let t = *self.fam.by.get(name).unwrap_or_else(|| panic!("template {}", name));
        self.effect(t);
        self.put(I::T(t, o, None));
    }

    fn effect(&mut self, t: usize) {
        let t = self.ts[t];
        let m = mnemonic(t);
        let sets = matches!(m, "add" | "sub" | "cmp" | "neg" | "adc" | "sbb" | "or" | "and" | "xor" | "test" | "ucomisd" | "popcnt" | "lzcnt" | "tzcnt" | "imul");
        if sets {
            self.defined = t.fmask & FLAGS;
        } else {
            self.defined &= t.fmask;
        }
    }

    fn movi(&mut self, reg: u64, v: i64) {
        let mut o = Ops::zero();
        o.a = reg;
        o.i = v;
        self.named("movq R(o.a), (o.i);", o);
    }

    /// make the flags in `m` meaningful
    fn want_flags(&mut self, m: u64) {
        while self.defined & m != m {
            let mut o = Ops::zero();
            o.a = *self.r.pick(&GEN);
            o.b = *self.r.pick(&GEN);
            o.i = rnd_imm(&mut self.r, ImmK::S8);
            match self.r.below(4) {
                0 => self.named("cmpq R(o.a), (o.i);", o),
                1 => self.named("testq R(o.a), R(o.b);", o),
                2 => self.named("subl R(o.a), R(o.b);", o),
                _ => self.named("cmpb R(o.a), R(o.b);", o),
            }
        }
    }

    fn straight(&mut self) {
        let f = self.fam;
        let set = match self.r.below(100) {
            0..=24 => &f.int,
            25..=44 => &f.imm,
            45..=69 => &f.mem,
            70..=86 => &f.sse,
            _ => &f.cond,
        };
        if set.is_empty() {
            return;
        }
        let ti = *self.r.pick(set);
        self.one(ti);
    }

    fn one(&mut self, ti: usize) {
        let t = self.ts[ti];
        let m = mnemonic(t);
        let mut o = Ops::zero();
        let x = |c: &str| t.slots.contains(c);
        o.a = if x("A") { self.r.below(16) } else { *self.r.pick(&GEN) };
        o.b = if x("B") {
            self.r.below(16)
        } else if m == "xchg" {
            *self.r.pick(&GEN)
        } else {
            // any register can be read
            *self.r.pick(&[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 14, 15])
        };
        o.i = rnd_imm(&mut self.r, t.imm);
        if !t.imm_rule(o.i).0 {
            return;
        }
        let mut item = None;
        if t.mem == Mem::Rip {
            let w = width(t);
            let v: Vec<usize> = (0..self.p.items.len())
                .filter(|i| {
                    let it = &self.p.items[*i];
                    it.size() >= w && !matches!(it.k, DK::Cell(_)) && (t.malign <= 1 || matches!(it.k, DK::CBytes(_) | DK::DBytes(_)))
                })
                .collect();
            if v.is_empty() {
                return;
            }
            item = Some(self.p.items[*self.r.pick(&v)].lab);
        } else if t.mem.has_base() {
            if !self.address(t, &mut o) {
                return;
            }
        }
        if let Hint::Div(w, signed) = t.hint {
            if t.mem == Mem::None && matches!(o.a, 0 | 2) {
                o.a = 8;
            }
            if self.r.chance(9, 10) {
                if t.mem == Mem::None {
                    let mut q = Ops::zero();
                    q.a = o.a;
                    q.i = 1;
                    self.named("orq R(o.a), (o.i);", q);
                }
                match (w, signed) {
                    (8, true) => self.named("cqo;", Ops::zero()),
                    (_, true) => self.named("cdq;", Ops::zero()),
                    _ => {
                        if t.mem != Mem::None && o.m == 2 || t.mem.has_index() && o.x == 2 {
                            return;
                        }
                        self.movi(2, 0)
                    }
                }
                if signed && t.mem.has_base() && (o.m == 2 || t.mem.has_index() && o.x == 2) {
                    return;
                }
            }
        }
        // flag consumers
        let need = match m {
            "adc" | "sbb" => 1,
            _ if t.fam == "cond" => needs(m.trim_start_matches("set").trim_start_matches("cmov")),
            _ => 0,
        };
        if self.defined & need != need {
            // the comparison must not change the address registers
            let mut q = Ops::zero();
            q.a = *self.r.pick(&GEN);
            q.b = *self.r.pick(&GEN);
            self.named("cmpq R(o.a), R(o.b);", q);
        }
        self.effect(ti);
        self.put(I::T(ti, o, item));
    }

    /// choose base, index and displacement of a memory operand inside the data area or the frame
    fn address(&mut self, t: &'static Tmpl, o: &mut Ops) -> bool {
        let w = width(t) as i64;
        let al = t.malign as i64;
        let lea = t.hint == Hint::Lea;
        // place: offset from BASE, or stack slots
        let stack = !t.mem.has_index() && al <= 1 && !lea && w <= 8 && self.r.chance(1, 4);
        if stack && self.frame > 0 && self.r.chance(1, 2) {
            o.m = 5;
            if t.mem == Mem::B {
                return false;
            }
            let k = self.r.below(self.frame as u64) as i64 + 1;
            o.d = -8 * k + self.r.below((9 - w) as u64) as i64;
            if t.mem == Mem::Bm {
                o.d = -o.d;
            }
            return true;
        }
        if stack && self.depth > 0 {
            o.m = 4;
            let k = if t.mem == Mem::B { 0 } else { self.r.below(self.depth as u64) as i64 };
            o.d = 8 * k + if t.mem == Mem::B { 0 } else { self.r.below((9 - w) as u64) as i64 };
            if t.mem == Mem::Bm {
                o.d = -o.d;
            }
            return true;
        }
        let mut off = match self.r.below(4) {
            0 => self.r.range(-16, 15),
            1 => self.r.range(-140, 140),
            _ => self.r.range(-700, 700),
        };
        if al > 1 {
            off &= !(al - 1);
        }
        let mut pre = 0i64;
        o.m = BASE;
        let mut idx = 0i64;
        if t.mem.has_index() {
            o.x = *self.r.pick(&GEN);
            idx = self.r.range(-8, 15);
            if al > 1 {
                idx &= !15;
            }
        }
        if !t.mem.has_disp() || self.r.chance(1, 2) {
            // another base register, set up first
            let mut b = *self.r.pick(&[0, 1, 2, 6, 7, 8, 9, 10, 11, 13]);
            if t.mem.has_index() && b == o.x {
                b = if o.x == 11 { 13 } else { 11 };
            }
            o.m = b;
            pre = if t.mem.has_disp() { self.r.range(-100, 100) & !15 } else { off };
            let mut q = Ops::zero();
            q.a = b;
            q.m = BASE;
            q.d = pre;
            self.named("lea R(o.a), [R(o.m) + (o.d)];", q);
        }
        if t.mem.has_index() {
            if self.r.chance(1, 2) {
                self.movi(o.x, idx);
            } else {
                // whatever it holds, reduced
                let mut q = Ops::zero();
                q.a = o.x;
                q.i = if al > 1 { 0x10 } else { 0xf };
                self.named("andq R(o.a), (o.i);", q);
            }
        }
        // |pre| <= 700, |disp| <= 700, |index * 8| <= 128: inside the data area
        if t.mem.has_disp() {
            o.d = off;
            if matches!(t.mem, Mem::Bm | Mem::Xm) {
                o.d = -off;
            }
        }
        let _ = (pre, idx);
        true
    }

    fn item(&mut self) -> usize {
        let lab = self.lab();
        let v = if self.r.chance(1, 3) { self.r.f64bits() } else { self.r.int() };
        let k = match self.r.below(8) {
            0 | 1 => DK::CI64(v),
            2 => DK::CF64(v),
            3 => DK::CI32(v as u32),
            4 => DK::CBytes(16 + self.r.below(24) as usize),
            5 => DK::DI64(v),
            6 => DK::DI32(v as u32),
            _ => DK::DBytes(16 + self.r.below(24) as usize),
        };
        self.p.items.push(Item { lab, k });
        self.p.items.len() - 1
    }

    fn cell(&mut self, l: usize) -> usize {
        for i in &self.p.items {
            if matches!(i.k, DK::Cell(x) if x == l) && self.r.chance(1, 2) {
                return i.lab;
            }
        }
        let lab = self.lab();
        self.p.items.push(Item { lab, k: DK::Cell(l) });
        let i = self.p.items.len() - 1;
        self.put(I::Decl(i));
        lab
    }

    /// go to `l` unconditionally, in one of many ways
    fn goto(&mut self, l: usize) {
        match self.r.below(10) {
            0 => {
                let c = self.cell(l);
                self.put(I::JmpCell(c));
            }
            1 => {
                self.put(I::Lea13(l));
                self.put(I::Jmp13);
            }
            2 => {
                self.put(I::Lea13(l));
                self.put(I::Push13);
                self.put(I::Ret);
            }
            3 => {
                let c = self.cell(l);
                self.put(I::Load13(c));
                self.put(I::Jmp13);
            }
            _ => self.put(I::Jmp(l)),
        }
    }

    fn call(&mut self, l: usize) {
        self.p.calls += 1;
        match self.r.below(7) {
            0 => {
                let c = self.cell(l);
                self.put(I::CallCell(c));
            }
            1 => {
                self.put(I::Lea13(l));
                self.put(I::Call13);
            }
            2 => {
                let c = self.cell(l);
                self.put(I::Load13(c));
                self.put(I::Call13);
            }
            _ => self.put(I::Call(l)),
        }
        self.defined = 0;
    }

    fn fill(&mut self) {
        let n = match self.r.below(40) {
            0 => self.r.range(32700, 33000),
            1 => self.r.range(65400, 65600),
            2..=9 => self.r.range(90, 140),
            10..=12 => self.r.range(200, 300),
            _ => self.r.range(0, 20),
        };
        if n > 0 {
            self.put(I::Fill(n as usize));
        }
    }

    fn block(&mut self, lvl: usize, n: u64) {
        for _ in 0..n {
            if self.budget <= 0 {
                return;
            }
            self.budget -= 1;
            match self.r.below(100) {
                0..=55 => self.straight(),
                56..=61 => self.pair(),
                62..=69 if lvl < 4 => {
                    // if / else
                    let c = self.r.below(JCC.len() as u64) as usize;
                    let need = needs(JCC[c].0);
                    self.want_flags(need);
                    let (l1, l2) = (self.lab(), self.lab());
                    // instructions between the comparison and the branch that leave the flags alone
                    if self.r.chance(1, 2) {
                        let v = self.r.pick(&[0i64, 1, -1, 77, 0x1_2345_6789]);
                        let (v, reg) = (*v, *self.r.pick(&GEN));
                        let mut o = Ops::zero();
                        o.a = reg;
                        o.b = *self.r.pick(&GEN);
                        o.i = v as i32 as i64;
                        match self.r.below(4) {
                            0 => self.movi(reg, v),
                            1 => self.named("movl R(o.a), (o.i);", o),
                            2 => self.named("movq R(o.a), R(o.b);", o),
                            _ => {
                                o.i = o.i as i8 as i64;
                                self.named("movb R(o.a), (o.i);", o)
                            }
                        }
                    }
                    self.put(I::Jcc(c, l1));
                    let k = self.r.below(5);
                    self.block(lvl + 1, k);
                    if self.r.chance(1, 2) {
                        self.goto(l2);
                        self.fill();
                        self.bind(l1);
                        let k = self.r.below(5);
                        self.block(lvl + 1, k);
                    } else {
                        self.bind(l1);
                    }
                    self.bind(l2);
                }
                70..=76 if self.nest < 3 && lvl < 4 => {
                    self.p.loops += 1;
                    let ctr = CTR[self.nest];
                    let n = self.r.range(1, 4);
                    self.nest += 1;
                    let mut o = Ops::zero();
                    o.a = ctr;
                    o.i = 1;
                    let (top, chk) = (self.lab(), self.lab());
                    self.movi(ctr, n);
                    let form = self.r.below(3);
                    if form == 1 {
                        self.goto(chk);
                        self.fill();
                    }
                    self.bind(top);
                    let k = 1 + self.r.below(6);
                    if self.r.chance(1, 3) {
                        // make the loop longer
                        let l = self.lab();
                        self.put(I::Jmp(l));
                        self.fill();
                        self.bind(l);
                    }
                    self.block(lvl + 1, k);
                    if form == 1 {
                        self.bind(chk);
                    }
                    self.named("subq R(o.a), (o.i);", o);
                    // taken while the counter is positive (g) or not negative (ns), not zero (ne)
                    let want: &[&str] = if form == 1 { &["g"] } else { &["g", "ne", "ns"] };
                    let w = *self.r.pick(want);
                    let cs: Vec<usize> = (0..JCC.len()).filter(|c| JCC[*c].0 == w).collect();
                    let c = *self.r.pick(&cs);
                    self.put(I::Jcc(c, top));
                    self.nest -= 1;
                }
                77..=82 if !self.callee.is_empty() && self.nest < 2 => {
                    let l = *self.r.pick(&self.callee.clone());
                    self.call(l);
                }
                83..=87 if lvl < 4 => {
                    // push .. pop
                    let n = 1 + self.r.below(3);
                    for _ in 0..n {
                        let reg = *self.r.pick(&[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 14, 15]);
                        self.put(I::Push(reg));
                        self.depth += 1;
                    }
                    let k = self.r.below(4);
                    self.block(lvl + 1, k);
                    for _ in 0..n {
                        let reg = *self.r.pick(&GEN);
                        self.put(I::Pop(reg));
                        self.depth -= 1;
                    }
                }
                88..=90 => {
                    // inline data
                    let (d, l) = (self.lab(), self.lab());
                    self.goto(l);
                    self.fill();
                    if self.r.chance(1, 3) {
                        let a = *self.r.pick(&[4, 8, 16]);
                        self.put(I::Align(a));
                    }
                    self.put(I::Bind(d));
                    let n = 1 + self.r.below(3) as usize;
                    let v: Vec<u64> = (0..n).map(|_| self.r.next()).collect();
                    self.put(I::Dq(v));
                    self.p.items.push(Item { lab: d, k: DK::Inline(8 * n) });
                    self.fill();
                    self.bind(l);
                }
                91..=93 => {
                    // continue on the other page
                    let l = self.lab();
                    self.goto(l);
                    self.page = 1 - self.page;
                    self.p.hops += 1;
                    let p = self.page;
                    self.put(I::Page(p));
                    self.fill();
                    self.bind(l);
                }
                94..=95 => {
                    let l = self.lab();
                    self.goto(l);
                    self.p.fins += 1;
                    self.put(I::Fin);
                    self.bind(l);
                }
                96..=97 => {
                    let i = self.item();
                    self.put(I::Decl(i));
                }
                98 => {
                    self.fill_jumped();
                }
                _ => self.straight(),
            }
        }
    }

    /// Two neighbours that have to do with each other, the first of which may be skipped: what an instruction
    /// does must not depend on what stands in front of it.
    fn pair(&mut self) {
        let f = self.fam;
        if self.r.chance(1, 8) {
            let (a, b) = (*self.r.pick(&GEN), *self.r.pick(&GEN));
            self.put(I::Push(a));
            self.put(I::Pop(b));
            return;
        }
        let ti = if self.r.chance(1, 2) {
            let n = *self.r.pick(&[
                "movq R(o.a), R(o.b);", "movq R(o.a), R(o.b);", "movl R(o.a), R(o.b);", "movq R(o.a), (o.i);", "addq R(o.a), (o.i);", "addq R(o.a), R(o.b);", "xchgq R(o.a), R(o.b);", "negq R(o.a);",
                "movq [R(o.m) + (o.d)], R(o.b);", "movq R(o.a), [R(o.m) + (o.d)];", "movsd xmm(o.a), xmm(o.b);", "subq R(o.a), (o.i);", "xorq R(o.a), R(o.b);", "cmpq R(o.a), R(o.b);", "testq R(o.a), R(o.b);",
                "movsd [R(o.m) + (o.d)], xmm(o.b);", "shlq R(o.a), (o.i);", "andq R(o.a), (o.i);", "movb R(o.a), R(o.b);", "movzxb R(o.a), R(o.b);",
            ]);
            match f.by.get(n) {
                Some(t) => *t,
                None => return,
            }
        } else {
            *self.r.pick(if self.r.clone().below(2) == 0 { &f.int } else { &f.mem })
        };
        let t = self.ts[ti];
        if matches!(mnemonic(t), "adc" | "sbb") || t.fam == "cond" || matches!(t.hint, Hint::Div(..)) {
            return;
        }
        let n = self.p.code.len();
        self.one(ti);
        if self.p.code.len() == n {
            return;
        }
        let Some(I::T(ti, o, item)) = self.p.code.last().cloned() else { return };
        let x = |c: &str| t.slots.contains(c);
        if t.mem.has_base() && [o.a, o.b, 0, 2].iter().any(|r| *r == o.m || t.mem.has_index() && *r == o.x) {
            return;
        }
        // the second one
        let (mut t2, mut o2) = (ti, o);
        let swapped = if let Some((_, d)) = [
            ("addq R(o.a), (o.i);", "subq R(o.a), (o.i);"),
            ("subq R(o.a), (o.i);", "addq R(o.a), (o.i);"),
            ("movq [R(o.m) + (o.d)], R(o.b);", "movq R(o.a), [R(o.m) + (o.d)];"),
            ("movq R(o.a), [R(o.m) + (o.d)];", "movq [R(o.m) + (o.d)], R(o.b);"),
            ("movsd [R(o.m) + (o.d)], xmm(o.b);", "movsd xmm(o.a), [R(o.m) + (o.d)];"),
            ("movq R(o.a), (o.i);", "addq R(o.a), (o.i);"),
            ("cmpq R(o.a), R(o.b);", "testq R(o.a), R(o.b);"),
        ]
        .iter()
        .find(|(a, _)| *a == t.name)
        .filter(|_| self.r.chance(2, 3))
        {
            if let Some(k) = f.by.get(d) {
                if self.ts[*k].imm == t.imm || self.ts[*k].imm_rule(o.i).0 {
                    t2 = *k;
                }
            }
            // the store and the load meet in one register
            if t.mem.has_base() && self.r.chance(2, 3) {
                if x("B") || x("A") {
                    (o2.a, o2.b) = (o.b, o.a);
                } else if GEN.contains(&o.b) {
                    (o2.a, o2.b) = (o.b, o.a);
                } else {
                    return;
                }
            }
            true
        } else {
            false
        };
        if !swapped {
            match self.r.below(4) {
                // again
                0 => {}
                // the other way round
                1 | 2 => {
                    if x("A") && x("B") || !x("A") && !x("B") && GEN.contains(&o.b) {
                        (o2.a, o2.b) = (o.b, o.a);
                    }
                }
                // over it
                _ => {
                    if !x("B") && !x("A") {
                        o2.b = *self.r.pick(&GEN);
                    }
                    if t.imm != ImmK::None {
                        o2.i = rnd_imm(&mut self.r, t.imm);
                        if !t.imm_rule(o2.i).0 {
                            o2.i = o.i;
                        }
                    }
                }
            }
        }
        if t.mem.has_base() && [o2.a, o2.b].iter().any(|r| *r == o.m || t.mem.has_index() && *r == o.x) {
            return;
        }
        if self.r.chance(2, 3) {
            self.p.code.pop();
            let (c, l) = (self.r.below(JCC.len() as u64) as usize, self.lab());
            let mut q = Ops::zero();
            q.a = *self.r.pick(&GEN);
            q.b = *self.r.pick(&GEN);
            self.named("cmpq R(o.a), R(o.b);", q);
            self.put(I::Jcc(c, l));
            self.effect(ti);
            self.put(I::T(ti, o, item));
            self.bind(l);
        }
        self.effect(t2);
        self.put(I::T(t2, o2, item));
        self.p.pairs += 1;
    }

    fn fill_jumped(&mut self) {
        let l = self.lab();
        self.goto(l);
        self.fill();
        self.bind(l);
    }

    fn function(&mut self, entry: usize) {
        let p = self.r.below(2) as usize;
        self.page = p;
        self.put(I::Page(p));
        self.fill();
        if self.r.chance(1, 3) {
            self.put(I::Align(16));
        }
        self.bind(entry);
        (self.nest, self.depth, self.frame) = (0, 0, 0);
        let framed = self.r.chance(1, 2);
        for c in CTR {
            self.put(I::Push(c));
        }
        self.depth = 0; // the saved counters are not touched
        if framed {
            self.put(I::Push(5));
            self.put(I::MovRbpRsp);
            self.frame = 1 + self.r.below(4) as usize;
            self.put(I::SubRsp(8 * self.frame as i64));
            self.defined = 0;
            self.depth = self.frame;
            for k in 1..=self.frame {
                let mut o = Ops::zero();
                o.m = 5;
                o.d = -8 * k as i64;
                o.i = rnd_imm(&mut self.r, ImmK::S32x);
                self.named("movq [R(o.m) + (o.d)], (o.i);", o);
            }
        }
        self.block(0, 40);
        if framed {
            self.put(I::Leave);
        }
        for c in CTR.iter().rev() {
            self.put(I::Pop(*c));
        }
        self.put(I::Ret);
    }
}

pub fn gen(ts: &[&'static Tmpl], fam: &Fams, seed: u64, id: u64) -> Prog {
    let mut r = Rng::sub(seed, 0xC17 ^ id << 12);
    let nf = 1 + r.below(4) as usize;
    let p = Prog { code: vec![], items: vec![], nlab: 0, entry: 0, fl: 0, loops: 0, pairs: 0, calls: 0, fins: 0, hops: 0 };
    let mut g = Gen { ts, fam, r, p, page: 0, defined: 0, nest: 0, depth: 0, frame: 0, budget: 0, callee: vec![] };
    let fs: Vec<usize> = (0..nf).map(|_| g.lab()).collect();
    for _ in 0..g.r.below(6) {
        let i = g.item();
        g.put(I::Decl(i));
    }
    // bodies in any order; f calls only later ones
    let mut order: Vec<usize> = (0..nf).collect();
    for i in (1..nf).rev() {
        let j = g.r.below(i as u64 + 1) as usize;
        order.swap(i, j);
    }
    for f in order {
        g.callee = fs[f + 1..].to_vec();
        g.budget = 6 + g.r.below(60) as i64;
        g.function(fs[f]);
        if f == 0 {
            g.p.fl = g.defined;
        }
        if g.r.chance(1, 6) {
            g.p.fins += 1;
            g.put(I::Fin);
        }
    }
    g.p.entry = fs[0];
    g.p
}

/// reference text of program n
fn text(ts: &[&'static Tmpl], p: &Prog, n: usize, s: &mut String) {
    let l = |k: &usize| format!("p{}_{}", n, k);
    s.push_str(".text 0\n");
    for i in &p.code {
        let _ = match i {
            I::T(t, o, it) => writeln!(s, "{}", ts[*t].text(o, &it.as_ref().map(l).unwrap_or_default())),
            I::Jmp(x) => writeln!(s, "jmp {}", l(x)),
            I::Jcc(c, x) => writeln!(s, "j{} {}", JCC[*c].0, l(x)),
            I::Call(x) => writeln!(s, "call {}", l(x)),
            I::CallCell(x) => writeln!(s, "call qword ptr [rip+{}]", l(x)),
            I::JmpCell(x) => writeln!(s, "jmp qword ptr [rip+{}]", l(x)),
            I::Lea13(x) => writeln!(s, "lea r13, [rip+{}]", l(x)),
            I::Load13(x) => writeln!(s, "mov r13, qword ptr [rip+{}]", l(x)),
            I::Call13 => writeln!(s, "call r13"),
            I::Jmp13 => writeln!(s, "jmp r13"),
            I::Push13 => writeln!(s, "push r13"),
            I::Push(r) => writeln!(s, "push {}", Q[*r as usize]),
            I::Pop(r) => writeln!(s, "pop {}", Q[*r as usize]),
            I::Ret => writeln!(s, "ret"),
            I::Leave => writeln!(s, "leave"),
            I::MovRbpRsp => writeln!(s, "mov rbp, rsp"),
            I::SubRsp(k) => writeln!(s, "sub rsp, {}", k),
            I::Bind(x) => writeln!(s, "{}:", l(x)),
            I::Fill(_) | I::Align(_) | I::Fin => Ok(()),
            I::Page(k) => writeln!(s, ".text {}", k),
            I::Dq(v) => writeln!(s, ".quad {}", v.iter().map(|x| format!("{:#x}", x)).collect::<Vec<_>>().join(",")),
            I::Decl(i) => {
                let it = &p.items[*i];
                let _ = writeln!(s, ".pushsection .text, 2\n.balign 16\n{}:", l(&it.lab));
                let _ = match it.k {
                    DK::CI64(v) | DK::CF64(v) | DK::DI64(v) => writeln!(s, ".quad {:#x}", v),
                    DK::CI32(v) | DK::DI32(v) => writeln!(s, ".long {:#x}", v),
                    DK::CBytes(k) | DK::DBytes(k) => writeln!(s, ".skip {}", k),
                    DK::Cell(_) => writeln!(s, ".quad 0"),
                    DK::Inline(_) => unreachable!(),
                };
                writeln!(s, ".popsection")
            }
        };
    }
    let _ = writeln!(s, ".pushsection .tab\n.long {}-base", l(&p.entry));
    for it in &p.items {
        let _ = writeln!(s, ".long {}-base", l(&it.lab));
        if let DK::Cell(x) = it.k {
            let _ = writeln!(s, ".long {}-base", l(&x));
        }
    }
    s.push_str(".popsection\n");
}

pub fn count(scale: u64) -> u64 {
    100 * scale
}

pub fn asm(ts: &[&'static Tmpl], seed: u64, part: u64, parts: u64, scale: u64) -> String {
    let f = fams(ts);
    let mut s = String::from(".intel_syntax noprefix\n.text 0\nbase:\n");
    for n in 0..count(scale) {
        let p = gen(ts, &f, seed, n * parts + part);
        text(ts, &p, n as usize, &mut s);
    }
    s
}

fn emit(jit: &mut JitMemory, ts: &[&'static Tmpl], p: &Prog) -> Vec<DestLabel> {
    // items have labels of their own
    let mut lab: Vec<Option<DestLabel>> = vec![None; p.nlab];
    let declared: Vec<usize> = p.items.iter().filter(|i| !matches!(i.k, DK::Inline(_))).map(|i| i.lab).collect();
    // an item referred to before its declaration is declared right away, where it is first needed
    fn get(jit: &mut JitMemory, lab: &mut Vec<Option<DestLabel>>, p: &Prog, declared: &[usize], k: usize) -> DestLabel {
        if let Some(l) = lab[k] {
            return l;
        }
        let l = if declared.contains(&k) {
            let it = p.items.iter().find(|i| i.lab == k).unwrap().k;
            match it {
                DK::CI64(v) => jit.const_i64(v as i64),
                DK::CF64(v) => jit.const_f64(f64::from_bits(v)),
                DK::CI32(v) => jit.const_i32(v as i32),
                DK::CBytes(n) => jit.constant(n),
                DK::DI64(v) => jit.data_i64(v as i64),
                DK::DI32(v) => jit.data_i32(v as i32),
                DK::DBytes(n) => jit.data(n),
                DK::Cell(x) => {
                    let d = get(jit, lab, p, declared, x);
                    jit.abs_address(d)
                }
                DK::Inline(_) => unreachable!(),
            }
        } else {
            jit.label()
        };
        lab[k] = Some(l);
        l
    }
    let g = |jit: &mut JitMemory, lab: &mut Vec<Option<DestLabel>>, k: usize| get(jit, lab, p, &declared, k);
    for i in &p.code {
        match i {
            I::T(t, o, it) => {
                let mut o = *o;
                if let Some(k) = it {
                    o.l = g(jit, &mut lab, *k);
                }
                (ts[*t].emit)(jit, &o)
            }
            I::Jmp(x) => {
                let l = g(jit, &mut lab, *x);
                monoasm! { &mut *jit, jmp l; }
            }
            I::Jcc(c, x) => {
                let l = g(jit, &mut lab, *x);
                (JCC[*c].1)(jit, l)
            }
            I::Call(x) => {
                let l = g(jit, &mut lab, *x);
                monoasm! { &mut *jit, call l; }
            }
            I::CallCell(x) => {
                let l = g(jit, &mut lab, *x);
                monoasm! { &mut *jit, call [rip + l]; }
            }
            I::JmpCell(x) => {
                let l = g(jit, &mut lab, *x);
                monoasm! { &mut *jit, jmp [rip + l]; }
            }
            I::Lea13(x) => {
                let l = g(jit, &mut lab, *x);
                monoasm! { &mut *jit, lea r13, [rip + l]; }
            }
            I::Load13(x) => {
                let l = g(jit, &mut lab, *x);
                monoasm! { &mut *jit, movq r13, [rip + l]; }
            }
            I::Call13 => monoasm! { &mut *jit, call r13; },
            I::Jmp13 => monoasm! { &mut *jit, jmp r13; },
            I::Push13 => monoasm! { &mut *jit, pushq r13; },
            I::Push(r) => monoasm! { &mut *jit, pushq R(*r); },
            I::Pop(r) => monoasm! { &mut *jit, popq R(*r); },
            I::Ret => monoasm! { &mut *jit, ret; },
            I::Leave => monoasm! { &mut *jit, leave; },
            I::MovRbpRsp => monoasm! { &mut *jit, movq rbp, rsp; },
            I::SubRsp(k) => monoasm! { &mut *jit, subq rsp, (*k); },
            I::Bind(x) => {
                let l = g(jit, &mut lab, *x);
                monoasm! { &mut *jit, l: }
            }
            I::Fill(n) => jit.emit(&vec![0xcc; *n]),
            I::Align(4) => jit.align4(),
            I::Align(8) => jit.align8(),
            I::Align(_) => jit.align16(),
            I::Page(k) => jit.select_page(*k),
            I::Fin => jit.finalize(),
            I::Dq(v) => {
                for x in v {
                    jit.emitq(*x);
                }
            }
            I::Decl(i) => {
                g(jit, &mut lab, p.items[*i].lab);
            }
        }
    }
    lab.into_iter().map(|l| l.unwrap_or_default()).collect()
}

fn state(r: &mut Rng, arena: u64, rsp: u64) -> St {
    let mut st = St { gpr: [0; 16], flags: 0, mxcsr: 0x1f80, xmm: [[0; 2]; 16] };
    for g in st.gpr.iter_mut() {
        *g = r.int();
    }
    for x in st.xmm.iter_mut() {
        *x = [r.f64bits(), r.f64bits()];
    }
    for b in [0, 2, 4, 6, 7, 11] {
        st.flags |= (r.next() & 1) << b;
    }
    if r.chance(1, 4) {
        st.mxcsr = 0x1f80 | r.below(4) << 13;
    }
    st.gpr[4] = rsp;
    st.gpr[BASE as usize] = arena + 1024;
    st
}

/// code, items, final states
pub fn run(ts: &[&'static Tmpl], text: &[u8], tab: &[u8], seed: u64, part: u64, parts: u64, scale: u64, only: Option<u64>) -> Report {
    let mut rep = Report::default();
    let fam = fams(ts);
    let rtext = eng::rwx(text.len());
    unsafe { std::ptr::copy_nonoverlapping(text.as_ptr(), rtext, text.len()) };
    let tab: Vec<u32> = tab.chunks(4).map(|c| u32::from_le_bytes(c.try_into().unwrap())).collect();
    let arena = eng::init(seed);
    eng::confine();
    let mut ti = 0;
    let total = count(scale);
    let mut n = 0;
    let mut r = Rng::sub(seed, 0x17C ^ part << 8);
    while n < total {
        // one instance holds several programs
        let hi = (n + 1 + r.below(20)).min(total);
        progress(n, 4);
        progress_text("JitMemory::new");
        let mut jit = new_jit();
        let mut ps: Vec<(u64, Prog, Vec<DestLabel>, u64, Vec<(u64, usize)>)> = vec![];
        for k in n..hi {
            let id = k * parts + part;
            let p = gen(ts, &fam, seed, id);
            // reference
            let base = rtext as u64;
            let mut at = || {
                ti += 1;
                base + tab[ti - 1] as u64
            };
            let rentry = at();
            let mut ritems = vec![];
            let mut cells = vec![];
            for it in &p.items {
                let a = at();
                ritems.push((a, it.size()));
                if let DK::Cell(_) = it.k {
                    cells.push((a, at()));
                }
            }
            for (c, t) in cells {
                unsafe { (c as *mut u64).write_unaligned(t) };
            }
            if only.map(|o| o != id).unwrap_or(false) {
                continue;
            }
            progress(id, 1);
            progress_text("emitting a program");
            let labs = match caught(|| {
                let l = emit(&mut jit, ts, &p);
                if k % 2 == 0 {
                    jit.finalize();
                }
                l
            }) {
                Ok(l) => l,
                Err(m) => {
                    rep.violate("C17: emitting a program panicked", format!("program {} (seed {}): {}", id, seed, m));
                    return rep;
                }
            };
            rep.add("programs", 1);
            rep.add("program_elements", p.code.len() as u64);
            rep.add("loops", p.loops as u64);
            rep.add("related_pairs", p.pairs as u64);
            rep.add("calls", p.calls as u64);
            rep.add("finalizations_inside", p.fins as u64);
            rep.add("page_changes", p.hops as u64);
            ps.push((id, p, labs, rentry, ritems));
        }
        if let Err(m) = caught(|| jit.finalize()) {
            rep.violate("C17: finalizing programs panicked", format!("programs {}..{} (seed {}): {}", n, hi, seed, m));
            return rep;
        }
        for (id, p, labs, rentry, ritems) in &ps {
            let got = caught(|| (jit.get_label_u64(labs[p.entry]), p.items.iter().map(|i| jit.get_label_u64(labs[i.lab])).collect::<Vec<u64>>()));
            let (entry, items) = match got {
                Ok(x) => x,
                Err(m) => {
                    rep.violate("C17: a label of a finished program has no address", format!("program {} (seed {}): {}", id, seed, m));
                    return rep;
                }
            };
            one(&mut rep, ts, *id, p, seed, &arena, entry, &items, *rentry, ritems);
            if rep.violations > 6 {
                return rep;
            }
        }
        release(&mut jit);
        n = hi;
    }
    rep
}

#[allow(clippy::too_many_arguments)]
fn one(rep: &mut Report, ts: &[&'static Tmpl], id: u64, p: &Prog, seed: u64, arena: &eng::Arena, entry: u64, items: &[u64], rentry: u64, ritems: &[(u64, usize)]) {
    let mut r = Rng::sub(seed, 0x57A7E ^ id << 16);
    let rd = |a: u64, n: usize| unsafe { std::slice::from_raw_parts(a as *const u8, n).to_vec() };
    let wr = |a: u64, b: &[u8]| unsafe { std::ptr::copy_nonoverlapping(b.as_ptr(), a as *mut u8, b.len()) };
    let init: Vec<Vec<u8>> = items.iter().zip(ritems).map(|(a, i)| rd(*a, i.1)).collect();
    let rinit: Vec<Vec<u8>> = ritems.iter().map(|i| rd(i.0, i.1)).collect();
    for k in 0..3 {
        let rsp = arena.base + 3584 + 8 * r.below(32);
        let st = state(&mut r, arena.base, rsp);
        let prep = || {
            arena.restore();
            unsafe { (rsp as *mut u64).write(eng::exit_addr()) };
        };
        progress(id, 2);
        prep();
        let want = eng::run(rentry, &st);
        if want.sig == eng::HANG {
            rep.add("reference_stopped", 1);
            return;
        }
        let wmem = arena.bytes().to_vec();
        let witems: Vec<Vec<u8>> = ritems.iter().map(|i| rd(i.0, i.1)).collect();
        progress(id, 3);
        progress_text("running a program");
        prep();
        let got = eng::run(entry, &st);
        let gmem = arena.bytes().to_vec();
        progress(id, 4);
        rep.add("executions", 2);
        if want.sig != 0 {
            rep.add(&format!("ended_by_signal_{}", want.sig), 1);
        }
        let mut d = String::new();
        if got.sig != want.sig {
            let _ = write!(d, "signal {} at {:#x}+{:#x} (expected {}) ", got.sig, entry, got.rip.wrapping_sub(entry), want.sig);
        } else {
            for g in 0..16 {
                if g != 13 && got.st.gpr[g] != want.st.gpr[g] {
                    let _ = write!(d, "{}={:#x} (expected {:#x}) ", Q[g], got.st.gpr[g], want.st.gpr[g]);
                }
                if got.st.xmm[g] != want.st.xmm[g] {
                    let _ = write!(d, "xmm{}={:x?} (expected {:x?}) ", g, got.st.xmm[g], want.st.xmm[g]);
                }
            }
            if want.sig == 0 && (got.st.flags ^ want.st.flags) & p.fl != 0 {
                let _ = write!(d, "flags {:#x} (expected {:#x} in {:#x}) ", got.st.flags & p.fl, want.st.flags & p.fl, p.fl);
            }
            if got.st.mxcsr != want.st.mxcsr {
                let _ = write!(d, "mxcsr {:#x} (expected {:#x}) ", got.st.mxcsr, want.st.mxcsr);
            }
            let up = (rsp + 8 - arena.base) as usize;
            for a in (0..2048).chain(up..4096) {
                if gmem[a] != wmem[a] {
                    let _ = write!(d, "memory[r15{:+}]={:#x} (expected {:#x}) ", a as i64 - 1024, gmem[a], wmem[a]);
                    break;
                }
            }
            for (i, it) in p.items.iter().enumerate() {
                let g = rd(items[i], ritems[i].1);
                if !matches!(it.k, DK::Cell(_)) && g != witems[i] {
                    let _ = write!(d, "item {:?} holds {:02x?} (expected {:02x?}) ", it.k, g, witems[i]);
                }
            }
        }
        for (i, b) in init.iter().enumerate() {
            wr(items[i], b);
            wr(ritems[i].0, &rinit[i]);
        }
        let nontrivial = want.st.gpr != st.gpr || want.st.xmm != st.xmm || wmem != arena.pristine;
        if nontrivial {
            rep.distinct.insert(hash((&want.st.gpr[..13], &want.st.xmm[..], want.sig)));
        }
        if !d.is_empty() {
            let mut s = String::new();
            text(ts, p, 0, &mut s);
            let mnem = if got.sig != want.sig { "ends differently" } else { "computes something else" };
            let s: String = s.replace('\n', "; ").chars().take(6000).collect();
            rep.violate(&format!("C17: a program {}", mnem), format!("program {} (seed {}) state {}: {} | {}", id, seed, k, d.chars().take(800).collect::<String>(), s));
            return;
        }
        if k == 0 && id % 53 == 1 {
            rep.sample(format!("program {}: {} elements, {} loops, {} calls, {} page changes, {} finalizations: final rax {:#x}, same as reference", id, p.code.len(), p.loops, p.calls, p.hops, p.fins, want.st.gpr[0]));
        }
    }
}
