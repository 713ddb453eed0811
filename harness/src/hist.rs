//! Shadow-model monitor for API histories: a random sequence of JitMemory calls runs against the real
//! instance and a model of what a user may rely on; every step compares positions, bytes, labels and blocks,
//! and every finalization runs the label references to see where they really go.
use crate::eng::{self, St};
use crate::rng::Rng;
use crate::util::*;
use monoasm::*;
use std::mem::ManuallyDrop;
use monoasm_macro::monoasm;

pub const LIM: usize = 96 << 10; // monitored prefix of every page
pub const PAGE: u64 = 256 << 20;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum K {
    /// direct jump / jcc / call to a pad
    Jump,
    Call,
    /// rax = address
    Lea,
    /// rax = 8 bytes at label
    Load,
    /// store an immediate of this width
    Store(usize),
    /// add an immediate to the quad word
    Add,
    /// through an absolute address cell
    CallCell,
    JumpCell,
    /// xmm0 = roundpd [label]
    Round,
    /// sets ZF by comparing with an immediate: rax = (item == imm)
    Cmp(usize),
}

pub type Emit = fn(&mut JitMemory, DestLabel, i64);

pub static REFS: &[(&str, K, Emit)] = &[
    ("jmp l", K::Jump, |jit, l, _| monoasm! { jit, jmp l; }),
    ("call l", K::Call, |jit, l, _| monoasm! { jit, call l; }),
    ("je l", K::Jump, |jit, l, _| monoasm! { jit, je l; }),
    ("jae l", K::Jump, |jit, l, _| monoasm! { jit, jae l; }),
    ("jno l", K::Jump, |jit, l, _| monoasm! { jit, jno l; }),
    ("lea rax, [rip + l]", K::Lea, |jit, l, _| monoasm! { jit, lea rax, [rip + l]; }),
    ("movq rax, [rip + l]", K::Load, |jit, l, _| monoasm! { jit, movq rax, [rip + l]; }),
    ("movb [rip + l], imm", K::Store(1), |jit, l, i| monoasm! { jit, movb [rip + l], (i); }),
    ("movw [rip + l], imm", K::Store(2), |jit, l, i| monoasm! { jit, movw [rip + l], (i); }),
    ("movl [rip + l], imm", K::Store(4), |jit, l, i| monoasm! { jit, movl [rip + l], (i); }),
    ("movq [rip + l], imm", K::Store(8), |jit, l, i| monoasm! { jit, movq [rip + l], (i); }),
    ("addq [rip + l], imm", K::Add, |jit, l, i| monoasm! { jit, addq [rip + l], (i); }),
    ("call [rip + l]", K::CallCell, |jit, l, _| monoasm! { jit, call [rip + l]; }),
    ("jmp [rip + l]", K::JumpCell, |jit, l, _| monoasm! { jit, jmp [rip + l]; }),
    ("roundpd xmm0, [rip + l], 3", K::Round, |jit, l, _| monoasm! { jit, roundpd xmm0, [rip + l], 3; }),
    ("cmpb [rip + l], imm", K::Cmp(1), |jit, l, i| monoasm! { jit, cmpb [rip + l], (i); }),
    ("cmpw [rip + l], imm", K::Cmp(2), |jit, l, i| monoasm! { jit, cmpw [rip + l], (i); }),
    ("cmpl [rip + l], imm", K::Cmp(4), |jit, l, i| monoasm! { jit, cmpl [rip + l], (i); }),
    ("cmpq [rip + l], imm", K::Cmp(8), |jit, l, i| monoasm! { jit, cmpq [rip + l], (i); }),
    // by the emission functions alone
    ("hand jmp l", K::Jump, |jit, l, _| by_hand(jit, &[0xe9], l, 0, 0)),
    ("hand call l", K::Call, |jit, l, _| by_hand(jit, &[0xe8], l, 0, 0)),
    ("hand je l", K::Jump, |jit, l, _| by_hand(jit, &[0x0f, 0x84], l, 0, 0)),
    ("hand lea rax, [rip + l]", K::Lea, |jit, l, _| by_hand(jit, &[0x48, 0x8d, 0x05], l, 0, 0)),
    ("hand movb [rip + l], imm", K::Store(1), |jit, l, i| by_hand(jit, &[0xc6, 0x05], l, i, 1)),
    ("hand movw [rip + l], imm", K::Store(2), |jit, l, i| by_hand(jit, &[0x66, 0xc7, 0x05], l, i, 2)),
    ("hand movq [rip + l], imm", K::Store(8), |jit, l, i| by_hand(jit, &[0x48, 0xc7, 0x05], l, i, 4)),
];

/// opcode, reference field and immediate emitted one by one
fn by_hand(jit: &mut JitMemory, op: &[u8], l: DestLabel, imm: i64, n: usize) {
    jit.emit(op);
    jit.save_reloc(l, 4 + n as u8);
    // whatever stands in the field before the label is known
    let junk = (imm as u32 ^ jit.get_current() as u32).wrapping_mul(0x9e37_79b9);
    jit.emitl(junk);
    jit.emit(&imm.to_le_bytes()[..n]);
}

/// a direct jump or call of five bytes
fn patchable(form: usize) -> bool {
    matches!(REFS[form].0, "jmp l" | "call l" | "hand jmp l" | "hand call l")
}

/// plain instructions used as filler (no memory effect matters; they are not run)
static PLAIN: &[fn(&mut JitMemory)] = &[
    |jit| monoasm! { jit, movq rax, r12; },
    |jit| monoasm! { jit, addl [rbp + rcx * 4 - 100], r9; },
    |jit| monoasm! { jit, movq r10, (0x1234_5678_9abc); },
    |jit| monoasm! { jit, sqrtpd xmm9, xmm2; },
    |jit| monoasm! { jit, cmpw [r13], 300; },
    |jit| monoasm! { jit, roundpd xmm1, [rsp + 16], 1; },
    |jit| monoasm! { jit, pushq r8; ret; leave; },
    |jit| monoasm! { jit, dq 77; dq 2.5; },
];

/// inline data words and their bits
#[allow(clippy::type_complexity)]
static DQ: &[(&str, fn(&mut JitMemory), u64)] = &[
    ("dq 0", |jit| monoasm! { jit, dq 0; }, (0i128) as u64),
    ("dq 1", |jit| monoasm! { jit, dq 1; }, (1i128) as u64),
    ("dq -1", |jit| monoasm! { jit, dq -1; }, (-1i128) as u64),
    ("dq 77", |jit| monoasm! { jit, dq 77; }, (77i128) as u64),
    ("dq 127", |jit| monoasm! { jit, dq 127; }, (127i128) as u64),
    ("dq 128", |jit| monoasm! { jit, dq 128; }, (128i128) as u64),
    ("dq -128", |jit| monoasm! { jit, dq -128; }, (-128i128) as u64),
    ("dq 255", |jit| monoasm! { jit, dq 255; }, (255i128) as u64),
    ("dq 256", |jit| monoasm! { jit, dq 256; }, (256i128) as u64),
    ("dq 65535", |jit| monoasm! { jit, dq 65535; }, (65535i128) as u64),
    ("dq 0x7fffffff", |jit| monoasm! { jit, dq 0x7fffffff; }, (0x7fffffffi128) as u64),
    ("dq 0x80000000", |jit| monoasm! { jit, dq 0x80000000; }, (0x80000000i128) as u64),
    ("dq -0x80000000", |jit| monoasm! { jit, dq -0x80000000; }, (-0x80000000i128) as u64),
    ("dq 0xffffffff", |jit| monoasm! { jit, dq 0xffffffff; }, (0xffffffffi128) as u64),
    ("dq 0x100000000", |jit| monoasm! { jit, dq 0x100000000; }, (0x100000000i128) as u64),
    ("dq 0x0102030405060708", |jit| monoasm! { jit, dq 0x0102030405060708; }, (0x0102030405060708i128) as u64),
    ("dq 0x7fffffffffffffff", |jit| monoasm! { jit, dq 0x7fffffffffffffff; }, (0x7fffffffffffffffi128) as u64),
    ("dq -0x8000000000000000", |jit| monoasm! { jit, dq -0x8000000000000000; }, (-0x8000000000000000i128) as u64),
    ("dq -0x7fffffffffffffff", |jit| monoasm! { jit, dq -0x7fffffffffffffff; }, (-0x7fffffffffffffffi128) as u64),
    ("dq 1_000_000", |jit| monoasm! { jit, dq 1_000_000; }, (1_000_000i128) as u64),
    ("dq 0.0", |jit| monoasm! { jit, dq 0.0; }, (0.0f64).to_bits()),
    ("dq -0.0", |jit| monoasm! { jit, dq -0.0; }, (-0.0f64).to_bits()),
    ("dq 1.0", |jit| monoasm! { jit, dq 1.0; }, (1.0f64).to_bits()),
    ("dq -1.5", |jit| monoasm! { jit, dq -1.5; }, (-1.5f64).to_bits()),
    ("dq 0.1", |jit| monoasm! { jit, dq 0.1; }, (0.1f64).to_bits()),
    ("dq 5e-324", |jit| monoasm! { jit, dq 5e-324; }, (5e-324f64).to_bits()),
    ("dq -5e-324", |jit| monoasm! { jit, dq -5e-324; }, (-5e-324f64).to_bits()),
    ("dq 2.2250738585072014e-308", |jit| monoasm! { jit, dq 2.2250738585072014e-308; }, (2.2250738585072014e-308f64).to_bits()),
    ("dq 2.225073858507201e-308", |jit| monoasm! { jit, dq 2.225073858507201e-308; }, (2.225073858507201e-308f64).to_bits()),
    ("dq 1.7976931348623157e308", |jit| monoasm! { jit, dq 1.7976931348623157e308; }, (1.7976931348623157e308f64).to_bits()),
    ("dq 9007199254740993.0", |jit| monoasm! { jit, dq 9007199254740993.0; }, (9007199254740993.0f64).to_bits()),
    ("dq 16777217.0", |jit| monoasm! { jit, dq 16777217.0; }, (16777217.0f64).to_bits()),
    ("dq 3.5f64", |jit| monoasm! { jit, dq 3.5f64; }, (3.5f64).to_bits()),
    ("dq -7f64", |jit| monoasm! { jit, dq -7f64; }, (-7f64).to_bits()),
    ("dq 1e-310", |jit| monoasm! { jit, dq 1e-310; }, (1e-310f64).to_bits()),
    ("dq 123456789.125", |jit| monoasm! { jit, dq 123456789.125; }, (123456789.125f64).to_bits()),
    ("dq 4.9e-320", |jit| monoasm! { jit, dq 4.9e-320; }, (4.9e-320f64).to_bits()),
];

/// instructions emitted one behind the other (not run)
static ROW: &[fn(&mut JitMemory, u64, u64, i64)] = &[
    |jit, a, _, _| monoasm! { jit, pushq R(a); },
    |jit, a, _, _| monoasm! { jit, popq R(a); },
    |jit, a, b, _| monoasm! { jit, movq R(a), R(b); },
    |jit, a, _, i| monoasm! { jit, movq R(a), (i); },
    |jit, a, _, i| monoasm! { jit, movl R(a), (i); },
    |jit, a, b, _| monoasm! { jit, movl R(a), R(b); },
    |jit, a, b, i| monoasm! { jit, movq R(a), [R(b) + (i)]; },
    |jit, a, b, i| monoasm! { jit, movq [R(b) + (i)], R(a); },
    |jit, a, _, i| monoasm! { jit, addq R(a), (i); },
    |jit, a, _, i| monoasm! { jit, subq R(a), (i); },
    |jit, a, b, _| monoasm! { jit, xorq R(a), R(b); },
    |jit, a, b, _| monoasm! { jit, cmpq R(a), R(b); },
    |jit, a, _, i| monoasm! { jit, cmpq R(a), (i); },
    |jit, a, b, _| monoasm! { jit, testq R(a), R(b); },
    |jit, a, b, _| monoasm! { jit, xchgq R(a), R(b); },
    |jit, a, _, _| monoasm! { jit, negq R(a); },
    |jit, a, _, i| monoasm! { jit, shlq R(a), (i & 63); },
    |jit, a, b, i| monoasm! { jit, lea R(a), [R(b) + (i)]; },
    |jit, a, b, _| monoasm! { jit, movsd xmm(a), xmm(b); },
    |jit, a, b, _| monoasm! { jit, movq xmm(a), R(b); },
    |jit, a, b, _| monoasm! { jit, movq R(a), xmm(b); },
    |jit, a, _, _| monoasm! { jit, sete R(a); },
    |jit, a, b, _| monoasm! { jit, cmovneq R(a), R(b); },
    |jit, _, _, _| monoasm! { jit, ret; },
    |jit, _, _, _| monoasm! { jit, leave; },
    |jit, _, _, _| monoasm! { jit, cqo; },
    |jit, a, _, _| monoasm! { jit, idiv R(a); },
    |jit, a, b, _| monoasm! { jit, imul R(a), R(b); },
    |jit, a, b, _| monoasm! { jit, movzxb R(a), R(b); },
];

#[derive(Clone, Debug, PartialEq)]
pub enum What {
    Unbound,
    /// code that sets rax to the id and returns
    Pad(u64),
    Item(usize),
    /// some position
    Plain,
}

#[derive(Clone, Debug)]
pub struct Lab {
    pub l: DestLabel,
    pub what: What,
    pub addr: Option<u64>,
    /// planned to become a pad (may be used as jump target before it is bound)
    pub pad: bool,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum IK {
    I64(u64),
    I32(u32),
    Bytes(usize),
    Abs(usize),
    Align8,
}

#[derive(Clone, Debug)]
pub struct Item {
    pub lab: usize,
    pub kind: IK,
    pub page: usize,
    pub addr: Option<u64>,
    pub val: Vec<u8>,
    /// bytes not determined yet (address of an unbound label)
    pub open: bool,
    /// an address cell the program has overwritten: with the address of this label, or with anything
    pub over: Option<Option<usize>>,
}

impl Item {
    /// label an address cell leads to now
    pub fn leads(&self) -> Option<usize> {
        match (self.kind, self.over) {
            (_, Some(o)) => o,
            (IK::Abs(x), None) => Some(x),
            _ => None,
        }
    }

    pub fn align(&self) -> u64 {
        match self.kind {
            IK::I64(_) | IK::Bytes(_) => 16,
            IK::I32(_) => 4,
            IK::Abs(_) | IK::Align8 => 8,
        }
    }
}

#[derive(Clone, Debug)]
pub struct Ref {
    pub form: usize,
    /// entry of the executable unit
    pub entry: u64,
    pub page: usize,
    pub lo: usize,
    pub hi: usize,
    pub lab: usize,
    pub imm: i64,
    pub resolved: bool,
    /// label bound at the instruction
    pub site: Option<usize>,
    /// destination after patching
    pub patched: Option<usize>,
}

/// How generated code is run.
#[derive(Clone, Copy, PartialEq)]
pub enum Exec {
    /// monitored engine (single thread): faults are observed
    Eng(u64),
    /// plain call (any thread)
    Call,
    None,
}

#[derive(Clone, Copy)]
pub struct Profile {
    pub name: &'static str,
    pub raw: u64,
    pub align: u64,
    pub plain: u64,
    pub page: u64,
    pub pad: u64,
    pub bind: u64,
    pub refs: u64,
    pub item: u64,
    pub fin: u64,
    pub patch: u64,
    pub query: u64,
    pub mv: u64,
    pub data_emit: u64,
    pub write: u64,
}

pub fn profile(name: &str) -> Profile {
    let b = Profile { name: "mix", raw: 10, align: 5, plain: 6, page: 8, pad: 10, bind: 4, refs: 24, item: 10, fin: 6, patch: 2, query: 4, mv: 1, data_emit: 2, write: 3 };
    match name {
        "refs" => Profile { name: "refs", refs: 40, pad: 16, page: 12, ..b },
        "items" => Profile { name: "items", item: 36, fin: 10, write: 10, data_emit: 1, ..b },
        "emit" => Profile { name: "emit", raw: 36, align: 20, plain: 14, data_emit: 8, ..b },
        "patch" => Profile { name: "patch", patch: 24, refs: 30, pad: 16, fin: 10, item: 4, ..b },
        "query" => Profile { name: "query", query: 24, mv: 8, page: 14, ..b },
        _ => b,
    }
}

pub struct Hist {
    pub jit: ManuallyDrop<Box<JitMemory>>,
    pub r: Rng,
    pub prof: Profile,
    pub exec: Exec,
    /// address of the monitored window of every page
    pub base: [u64; 3],
    /// offset of that window in the page
    pub off: [usize; 3],
    /// positions, relative to the window
    pub cur: [usize; 3],
    pub img: [Vec<u8>; 3],
    pub page: usize,
    pub top: [usize; 3],
    pub blocks: [Vec<(usize, usize, usize)>; 3],
    pub labs: Vec<Lab>,
    pub items: Vec<Item>,
    pub pend: Vec<usize>, // items not yet placed
    pub refs: Vec<Ref>,
    pub trace: Vec<String>,
    pub id: u64,
    pub dead: bool,
    /// a monitor fired
    pub broken: bool,
    pub steps: u64,
    pub fins: u64,
    pub sig: u64, // running hash of the history
    pub stack: Vec<u8>,
}

fn sentinel(seed: u64, p: usize, i: usize) -> u8 {
    let x = (seed ^ (p as u64) << 60).wrapping_add(i as u64 / 8).wrapping_mul(0x9E3779B97F4A7C15);
    ((x ^ x >> 29) >> (8 * (i % 8))) as u8
}

pub fn page_base(jit: &JitMemory, p: usize) -> u64 {
    &jit[Page(p)][Pos::from(0)] as *const u8 as u64
}

/// Move the position of a page up to `off` (a multiple of 4096), and forget the contents passed over.
pub fn advance(jit: &mut JitMemory, p: usize, off: usize) {
    let b = page_base(jit, p);
    for _ in 0..off / 4096 {
        jit[Page(p)].emitb(0);
        jit[Page(p)].align_page();
    }
    if off > 0 {
        unsafe { libc::madvise(b as *mut _, off, libc::MADV_DONTNEED) };
    }
}

pub fn un(p: Pos) -> usize {
    p - Pos::from(0)
}

impl Hist {
    pub fn new(seed: u64, id: u64, prof: Profile, exec: Exec, rep: &mut Report) -> Hist {
        progress(id, 4);
        progress_text("JitMemory::new");
        let jit = Box::new(new_jit());
        Hist::with(jit, [0; 3], seed, id, prof, exec, rep)
    }

    /// `off`: where in each page (multiple of 4096) the history takes place
    pub fn with(mut jit: Box<JitMemory>, off: [usize; 3], seed: u64, id: u64, prof: Profile, exec: Exec, rep: &mut Report) -> Hist {
        let r = Rng::sub(seed, 0x4157 ^ id << 8);
        let mut base = [page_base(&jit, 0), page_base(&jit, 1), page_base(&jit, 2)];
        for p in 0..3 {
            advance(&mut jit, p, off[p]);
            base[p] += off[p] as u64;
        }
        let mut img: [Vec<u8>; 3] = [vec![0; LIM], vec![0; LIM], vec![0; LIM]];
        for p in 0..3 {
            for i in 0..LIM {
                img[p][i] = sentinel(seed ^ id, p, i);
            }
            unsafe { std::ptr::copy_nonoverlapping(img[p].as_ptr(), base[p] as *mut u8, LIM) };
        }
        rep.add("histories", 1);
        Hist {
            jit: ManuallyDrop::new(jit),
            r,
            prof,
            exec,
            base,
            off,
            cur: [0; 3],
            img,
            page: 0,
            top: [0; 3],
            blocks: [vec![], vec![], vec![]],
            labs: vec![],
            items: vec![],
            pend: vec![],
            refs: vec![],
            trace: vec![],
            id,
            dead: false,
            broken: false,
            steps: 0,
            fins: 0,
            sig: 0,
            stack: vec![],
        }
    }

    fn t(&mut self, s: String) {
        progress(self.id, 4);
        progress_text(&s);
        self.sig = hash((self.sig, &s));
        self.trace.push(s);
        if self.trace.len() > 4000 {
            self.trace.drain(..2000);
        }
    }

    pub fn violate(&mut self, rep: &mut Report, tags: &[&str], key: &str, detail: String) {
        let n = self.trace.len();
        let tail = self.trace[n.saturating_sub(14)..].join("; ");
        for t in tags {
            rep.violate(&format!("{}: {}", t, key), format!("history {} step {} ({}): {} | ... {}", self.id, self.steps, self.prof.name, detail, tail));
        }
        self.dead = true;
        self.broken = true;
    }

    pub fn mem(&self, p: usize) -> &'static [u8] {
        unsafe { std::slice::from_raw_parts(self.base[p] as *const u8, LIM) }
    }

    fn abs(&self, p: usize) -> u64 {
        self.base[p] + self.cur[p] as u64
    }

    /// where the pages begin
    pub fn pages(&self) -> [u64; 3] {
        [0, 1, 2].map(|p| self.base[p] - self.off[p] as u64)
    }

    pub fn page_of(&self, a: u64) -> Option<(usize, usize)> {
        for p in 0..3 {
            let b = self.base[p] - self.off[p] as u64;
            if a >= b && a < b + PAGE {
                return Some((p, a.wrapping_sub(self.base[p]) as usize));
            }
        }
        None
    }

    /// Compare the real pages with the image.  `from`: only around the cursor unless full.
    fn compare(&mut self, rep: &mut Report, full: bool, why: &str) {
        rep.add("image_compares", 1);
        for p in 0..3 {
            let (lo, hi) = if full { (0, LIM) } else { (self.cur[p].saturating_sub(64).min(LIM), (self.cur[p] + 256).min(LIM)) };
            let m = self.mem(p);
            if m[lo..hi] != self.img[p][lo..hi] {
                let k = (lo..hi).find(|k| m[*k] != self.img[p][*k]).unwrap();
                let n = (k..(k + 8).min(LIM)).len();
                let tags: &[&str] = if let Some(i) = self.items.iter().position(|i| i.addr.map(|a| k as u64 + self.base[p] >= a && (k as u64 + self.base[p]) < a + i.val.len() as u64).unwrap_or(false)) {
                    let _ = i;
                    &["C08", "C07"]
                } else {
                    &["C08"]
                };
                let mut tags = tags.to_vec();
                if why.starts_with("patch") {
                    tags.push("C09");
                }
                tags.push("C16");
                let d = format!(
                    "{}: page {} byte {:#x} is {:02x?}, expected {:02x?} (cursor {:#x})",
                    why,
                    p,
                    k,
                    &m[k..k + n],
                    &self.img[p][k..k + n],
                    self.cur[p]
                );
                self.violate(rep, &tags, "bytes changed outside the operation", d);
                return;
            }
        }
    }

    fn get_cur(&mut self, p: usize) -> usize {
        let s = self.jit.get_page();
        self.jit.select_page(p);
        let c = self.jit.get_current();
        self.jit.select_page(s);
        c.wrapping_sub(self.off[p])
    }

    fn check_cursors(&mut self, rep: &mut Report) {
        rep.add("position_checks", 1);
        if self.jit.get_page() != self.page {
            let d = format!("selected page is {}, expected {}", self.jit.get_page(), self.page);
            self.violate(rep, &["C08", "C16"], "selected page", d);
            return;
        }
        for p in 0..2 {
            let c = self.get_cur(p);
            if c != self.cur[p] {
                let d = format!("position of page {} is {:#x}, expected {:#x}", p, c, self.cur[p]);
                self.violate(rep, &["C08", "C16"], "reported position", d);
                return;
            }
        }
        let a = self.jit.get_current_address().as_ptr() as u64;
        let w = self.abs(self.page);
        if a != w {
            let d = format!("current address {:#x}, expected {:#x}", a, w);
            self.violate(rep, &["C08", "C12"], "current address", d);
        }
    }

    /// the selected page received exactly these bytes
    fn appended(&mut self, rep: &mut Report, p: usize, bytes: &[u8]) {
        let c = self.cur[p];
        self.img[p][c..c + bytes.len()].copy_from_slice(bytes);
        self.cur[p] += bytes.len();
        rep.add("bytes_emitted", bytes.len() as u64);
    }

    /// the selected page received some instruction; absorb it
    fn absorbed(&mut self, rep: &mut Report, max: usize) -> (usize, usize) {
        let p = self.page;
        let c = self.cur[p];
        let n = self.jit.get_current().wrapping_sub(self.off[p]);
        if n <= c || n > c + max {
            let d = format!("position moved from {:#x} to {:#x}", c, n);
            self.violate(rep, &["C08", "C16"], "position after an instruction", d);
            return (c, c);
        }
        let m = self.mem(p);
        self.img[p][c..n].copy_from_slice(&m[c..n]);
        self.cur[p] = n;
        (c, n)
    }

    fn raw(&mut self, rep: &mut Report, b: &[u8]) {
        self.jit.emit(b);
        let p = self.page;
        self.appended(rep, p, b);
    }

    fn room(&self) -> bool {
        (0..3).all(|p| self.cur[p] + 9000 < LIM)
    }

    /// many labels nobody uses
    pub fn burst(&mut self, rep: &mut Report, n: u64) {
        self.t(format!("{} labels", n));
        for _ in 0..n {
            let _ = self.jit.label();
        }
        rep.add("idle_labels", n);
    }

    fn new_lab(&mut self, pad: bool) -> usize {
        let l = self.jit.label();
        self.labs.push(Lab { l, what: What::Unbound, addr: None, pad });
        self.labs.len() - 1
    }

    fn bind_here(&mut self, i: usize, what: What) {
        let l = self.labs[i].l;
        if self.r.chance(1, 4) {
            let p = self.page;
            self.jit.bind_label_with_page(Page(p), l);
        } else if self.r.chance(1, 2) {
            let j = &mut *self.jit;
            monoasm! { j, l: };
        } else {
            self.jit.bind_label(l);
        }
        self.labs[i].what = what;
        self.labs[i].addr = Some(self.abs(self.page));
        self.settle(i);
    }

    /// a label got its position: its pending references may be filled in from now on
    fn settle(&mut self, i: usize) {
        for k in 0..self.refs.len() {
            if self.refs[k].lab == i && !self.refs[k].resolved {
                self.absorb_window(k);
            }
        }
    }

    /// allow a change of at most 4 adjacent bytes inside a pending reference
    fn absorb_window(&mut self, k: usize) {
        let rf = self.refs[k].clone();
        let m = self.mem(rf.page);
        let ch: Vec<usize> = (rf.lo..rf.hi).filter(|i| m[*i] != self.img[rf.page][*i]).collect();
        if let (Some(a), Some(b)) = (ch.first(), ch.last()) {
            if b - a < 4 {
                self.img[rf.page][rf.lo..rf.hi].copy_from_slice(&m[rf.lo..rf.hi]);
            }
        }
    }

    fn emit_pad(&mut self, rep: &mut Report, lab: usize) {
        let id = self.r.next();
        let pg = self.page;
        if self.r.chance(1, 6) && !self.pend.iter().any(|i| self.items[*i].page == pg) {
            // the label is bound and a finalization comes before any code is emitted behind it
            self.bind_here(lab, What::Plain);
            self.t(format!("L{} bound, finalize before its code", lab));
            rep.add("bare_finalizations", 1);
            self.finalize(rep);
            if self.dead {
                return;
            }
            if self.labs[lab].addr != Some(self.abs(pg)) {
                let d = format!("finalize moved the position of page {} past L{} without a constant to place", pg, lab);
                self.violate(rep, &["C08"], "position after finalize", d);
                return;
            }
            self.labs[lab].what = What::Pad(id);
        } else {
            self.bind_here(lab, What::Pad(id));
        }
        let mut b = vec![0x48, 0xb8];
        b.extend_from_slice(&id.to_le_bytes());
        b.push(0xc3);
        self.raw(rep, &b);
    }

    fn pick_lab(&mut self, f: impl Fn(&Lab, &Hist) -> bool) -> Option<usize> {
        let v: Vec<usize> = (0..self.labs.len()).filter(|i| f(&self.labs[*i], self)).collect();
        if v.is_empty() {
            None
        } else if self.r.chance(1, 2) {
            Some(v[v.len() - 1 - self.r.below(v.len().min(5) as u64) as usize])
        } else {
            Some(*self.r.pick(&v))
        }
    }

    /// Emit an executable unit around one label reference.
    fn emit_ref(&mut self, rep: &mut Report) {
        let form = self.r.below(REFS.len() as u64) as usize;
        let form = if self.prof.patch > 10 && self.r.chance(2, 3) { self.r.below(2) as usize } else { form };
        let k = REFS[form].1;
        let usable = |l: &Lab, h: &Hist| -> bool {
            let item = if let What::Item(i) = l.what { Some(&h.items[i]) } else { None };
            match k {
                K::Jump | K::Call => l.pad,
                K::Lea => true,
                K::Load => l.pad || item.map(|i| i.val.len() >= 8).unwrap_or(false),
                K::Store(w) | K::Cmp(w) => item.map(|i| i.val.len() >= w && !matches!(i.kind, IK::Abs(_))).unwrap_or(false),
                K::Add => item.map(|i| i.val.len() >= 8 && !matches!(i.kind, IK::Abs(_))).unwrap_or(false),
                K::CallCell | K::JumpCell => item.map(|i| matches!(i.kind, IK::Abs(x) if h.labs[x].pad)).unwrap_or(false),
                K::Round => item.map(|i| i.val.len() >= 16 && matches!(i.kind, IK::Bytes(_))).unwrap_or(false),
            }
        };
        let lab = if matches!(k, K::Jump | K::Call | K::Lea) && self.r.chance(1, 6) { Some(self.new_lab(true)) } else { self.pick_lab(usable) };
        let Some(lab) = lab else { return };
        let imm = match k {
            K::Store(1) | K::Cmp(1) => self.r.next() as i8 as i64,
            K::Store(2) | K::Cmp(2) => if self.r.chance(1, 3) { self.r.next() as i8 as i64 } else { self.r.next() as i16 as i64 },
            K::Add | K::Cmp(_) => if self.r.chance(1, 2) { self.r.next() as i8 as i64 } else { self.r.next() as i32 as i64 },
            K::Store(_) => self.r.next() as i32 as i64,
            _ => 0,
        };
        // preceding bytes shift the instruction to every alignment
        let lead = self.r.below(5) as usize;
        self.raw(rep, &vec![0xccu8; lead]);
        let entry = self.abs(self.page);
        self.raw(rep, &[0x48, 0x39, 0xc0]); // cmp rax, rax: ZF=1, CF=OF=0
        let site = if patchable(form) && self.r.chance(3, 4) {
            let s = self.new_lab(false);
            self.bind_here(s, What::Plain);
            Some(s)
        } else {
            None
        };
        self.t(format!("ref {} L{} imm {} on page {} at {:#x}", REFS[form].0, lab, imm, self.page, self.cur[self.page]));
        let l = self.labs[lab].l;
        let f = REFS[form].2;
        let j = &mut *self.jit;
        if let Err(m) = caught(|| f(j, l, imm)) {
            let d = format!("{} panicked: {}", REFS[form].0, m);
            self.violate(rep, &["C06", "C08"], "emission panicked", d);
            return;
        }
        let (lo, hi) = self.absorbed(rep, 15);
        if self.dead {
            return;
        }
        let page = self.page;
        self.refs.push(Ref { form, entry, page, lo, hi, lab, imm, resolved: false, site, patched: None });
        rep.add("references", 1);
        if k == K::Jump && self.labs[lab].what == What::Unbound && self.r.chance(1, 3) {
            // a jump to what follows it
            let id = self.r.next();
            self.bind_here(lab, What::Pad(id));
            let mut b = vec![0x48, 0xb8];
            b.extend_from_slice(&id.to_le_bytes());
            b.push(0xc3);
            self.check_cursors(rep);
            if self.dead {
                return;
            }
            self.raw(rep, &b);
            rep.add("jumps_to_next", 1);
        } else if matches!(REFS[form].0, "jmp l" | "hand jmp l") && self.r.chance(1, 3) {
            // the code right behind a jump is a destination as well
            let l = self.new_lab(true);
            let id = self.r.next();
            self.bind_here(l, What::Pad(id));
            let mut b = vec![0x48, 0xb8];
            b.extend_from_slice(&id.to_le_bytes());
            b.push(0xc3);
            self.raw(rep, &b);
        } else if let K::Cmp(_) = k {
            self.raw(rep, &[0xb8, 0, 0, 0, 0, 0x0f, 0x94, 0xc0, 0xc3]); // mov eax,0; sete al; ret
        } else {
            self.raw(rep, &[0xc3]);
        }
    }

    fn declare(&mut self, rep: &mut Report) {
        let mut v = self.r.int();
        let mut fb = self.r.f64bits();
        if self.r.chance(1, 3) {
            // the same value as another item, or almost
            let old: Vec<u64> = self.items.iter().rev().take(8).filter_map(|i| match i.kind { IK::I64(v) => Some(v), IK::I32(v) => Some(v as i32 as i64 as u64), _ => None }).collect();
            if !old.is_empty() {
                v = *self.r.pick(&old);
                fb = v;
                match self.r.below(4) {
                    0 => fb ^= 1 << 63,
                    1 => v ^= 1 << self.r.below(64),
                    _ => {}
                }
            }
        }
        let page = self.page;
        let sel = self.r.below(11);
        let n = match self.r.below(6) {
            0 if self.r.chance(1, 4) => self.r.below(3000),
            0 => 0,
            1 => 16 + self.r.below(3),
            2 => self.r.below(200),
            _ => self.r.below(40),
        } as usize;
        let abs = if sel == 9 || sel == 10 {
            if self.r.chance(1, 3) { Some(self.new_lab(true)) } else { self.pick_lab(|l, _| l.what != What::Unbound || l.pad) }
        } else {
            None
        };
        self.t(format!("declare kind {} value {:#x} size {} abs {:?} page {}", sel, v, n, abs, page));
        let (l, kind, pg) = match sel {
            0 => (self.jit.const_i64(v as i64), IK::I64(v), page),
            1 => {
                let f = f64::from_bits(fb);
                (self.jit.const_f64(f), IK::I64(f.to_bits()), page)
            }
            2 => (self.jit.const_i32(v as i32), IK::I32(v as u32), page),
            3 => (self.jit.constant(n), IK::Bytes(n), page),
            4 => (self.jit.const_align8(), IK::Align8, page),
            5 => (self.jit.data_i64(v as i64), IK::I64(v), 2),
            6 => (self.jit.data_i32(v as i32), IK::I32(v as u32), 2),
            7 | 8 => (self.jit.data(n), IK::Bytes(n), 2),
            _ => match abs {
                Some(x) => (self.jit.abs_address(self.labs[x].l), IK::Abs(x), page),
                None => return,
            },
        };
        let val = match kind {
            IK::I64(v) => v.to_le_bytes().to_vec(),
            IK::I32(v) => v.to_le_bytes().to_vec(),
            IK::Bytes(n) => vec![0; n],
            IK::Abs(_) => vec![0; 8],
            IK::Align8 => vec![],
        };
        self.labs.push(Lab { l, what: What::Item(self.items.len()), addr: None, pad: false });
        let lab = self.labs.len() - 1;
        self.items.push(Item { lab, kind, page: pg, addr: None, val, open: matches!(kind, IK::Abs(_)), over: None });
        self.pend.push(self.items.len() - 1);
        rep.add("items_declared", 1);
    }

    pub fn finalize(&mut self, rep: &mut Report) {
        self.t("finalize".into());
        self.compare(rep, true, "before finalize");
        if self.dead {
            return;
        }
        let before: Vec<Vec<u8>> = (0..3).map(|p| self.mem(p).to_vec()).collect();
        let j = &mut *self.jit;
        if let Err(m) = caught(|| j.finalize()) {
            self.violate(rep, &["C06", "C07", "C08", "C16"], "finalize panicked", m);
            return;
        }
        self.fins += 1;
        rep.add("finalizations", 1);
        let code_end = self.cur;
        let mut end = [self.get_cur(0), self.get_cur(1), 0];
        end[2] = self.jit[Page(2)].code_block.last().map(|b| un(b.2)).unwrap_or(0).wrapping_sub(self.off[2]);
        for p in 0..3 {
            if end[p] < code_end[p] || end[p] > LIM {
                let d = format!("page {}: position {:#x} before, {:#x} after finalize", p, code_end[p], end[p]);
                self.violate(rep, &["C08", "C07"], "position after finalize", d);
                return;
            }
        }
        // code blocks
        for p in 0..3 {
            self.blocks[p].push((self.top[p], code_end[p] + self.off[p], end[p] + self.off[p]));
            let got: Vec<(usize, usize, usize)> = self.jit[Page(p)].code_block.iter().map(|b| (un(b.0), un(b.1), un(b.2))).collect();
            if got != self.blocks[p] {
                let d = format!("page {} blocks {:x?}, expected {:x?}", p, got, self.blocks[p]);
                self.violate(rep, &["C08", "C16"], "code block list", d);
            }
            self.top[p] = end[p] + self.off[p];
        }
        rep.add("block_checks", 1);
        // changed bytes below the old positions: only label reference fields
        for k in 0..self.refs.len() {
            if !self.refs[k].resolved && self.labs[self.refs[k].lab].what != What::Unbound {
                self.absorb_window(k);
                self.refs[k].resolved = true;
            }
        }
        for i in 0..self.items.len() {
            if let (Some(a), IK::Abs(x), true) = (self.items[i].addr, self.items[i].kind, self.items[i].open) {
                if self.labs[x].what != What::Unbound {
                    // cell of an earlier block resolved now
                    let (p, o) = self.page_of(a).unwrap();
                    let m = self.mem(p);
                    self.img[p][o..o + 8].copy_from_slice(&m[o..o + 8]);
                }
            }
        }
        for p in 0..3 {
            let m = self.mem(p);
            if m[..code_end[p]] != self.img[p][..code_end[p]] {
                let k = (0..code_end[p]).find(|k| m[*k] != self.img[p][*k]).unwrap();
                let inref = self.refs.iter().any(|r| r.page == p && r.lo <= k && k < r.hi);
                let initem = self.items.iter().any(|i| i.addr.map(|a| a <= self.base[p] + k as u64 && self.base[p] + (k as u64) < a + i.val.len() as u64).unwrap_or(false));
                let d = format!("finalize changed page {} byte {:#x} from {:#x} to {:#x} (inside a reference: {}, inside an item: {})", p, k, before[p][k], m[k], inref, initem);
                let mut tags = vec!["C08", "C16"];
                if initem {
                    tags.push("C07");
                }
                if inref {
                    tags.push("C06");
                    if self.refs.iter().any(|r| r.page == p && r.lo <= k && k < r.hi && r.patched.is_some()) {
                        tags.push("C09");
                    }
                }
                self.violate(rep, &tags, "finalize changed emitted bytes", d);
                self.img[p][..code_end[p]].copy_from_slice(&m[..code_end[p]]);
            }
            if m[end[p]..] != self.img[p][end[p]..] {
                let k = (end[p]..LIM).find(|k| m[*k] != self.img[p][*k]).unwrap();
                let d = format!("finalize wrote page {} byte {:#x} beyond its end {:#x}", p, k, end[p]);
                self.violate(rep, &["C08", "C10", "C16"], "finalize wrote beyond the position", d);
                self.img[p][end[p]..].copy_from_slice(&m[end[p]..]);
            }
            // the area between: padding is free, items are checked below
            self.img[p][code_end[p]..end[p]].copy_from_slice(&m[code_end[p]..end[p]]);
            self.cur[p] = end[p];
        }
        // items placed now
        for i in std::mem::take(&mut self.pend) {
            let it = self.items[i].clone();
            let l = self.labs[it.lab].l;
            let j = &mut *self.jit;
            let a = match caught(|| j.get_label_u64(l)) {
                Ok(a) => a,
                Err(m) => {
                    let d = format!("item {:?} has no address after finalize: {}", it.kind, m);
                    self.violate(rep, &["C07", "C06"], "item not placed", d);
                    continue;
                }
            };
            self.items[i].addr = Some(a);
            self.labs[it.lab].addr = Some(a);
            rep.add("items_placed", 1);
            let place = self.page_of(a);
            let ok = match place {
                Some((p, o)) => p == it.page && o >= code_end[p] && o + it.val.len() <= end[p],
                None => false,
            };
            if !ok {
                let d = format!("item {:?} declared for page {} is at {:x?}, block is {:#x}..{:#x}", it.kind, it.page, place, code_end[it.page], end[it.page]);
                self.violate(rep, &["C07"], "item outside its own storage", d);
                self.items[i].addr = None;
                self.labs[it.lab].addr = None;
                continue;
            }
            if a % it.align() != 0 {
                let d = format!("item {:?} at {:#x} is not aligned to {}", it.kind, a, it.align());
                self.violate(rep, &["C07"], "item alignment", d);
                continue;
            }
            for k in 0..self.items.len() {
                if k != i {
                    let o = &self.items[k];
                    if let Some(b) = o.addr {
                        if a < b + o.val.len() as u64 && b < a + it.val.len() as u64 {
                            let d = format!("item {:?} at {:#x} overlaps item {:?} at {:#x}", it.kind, a, o.kind, b);
                            self.violate(rep, &["C07"], "items overlap", d);
                            break;
                        }
                    }
                }
            }
        }
        self.check_items(rep, "after finalize");
        if self.dead {
            return;
        }
        self.check_slice(rep);
        self.check_cursors(rep);
        self.compare(rep, true, "after finalize");
        if self.dead {
            return;
        }
        self.check_labels(rep, 64);
        self.run_refs(rep);
    }

    /// After a monitor fired: let every other monitor judge the state as well, so that each property
    /// gets its own verdict.
    fn post_mortem(&mut self, rep: &mut Report) {
        self.trace.push("post mortem".into());
        for p in 0..3 {
            let m = self.mem(p);
            self.img[p].copy_from_slice(m);
        }
        let mut go = |h: &mut Hist, f: &mut dyn FnMut(&mut Hist, &mut Report)| {
            h.dead = false;
            f(h, rep);
        };
        go(self, &mut |h, rep| h.check_items(rep, "later"));
        go(self, &mut |h, rep| h.check_labels(rep, 200));
        go(self, &mut |h, rep| h.check_slice(rep));
        go(self, &mut |h, rep| h.check_cursors(rep));
        go(self, &mut |h, rep| h.include(rep));
        if matches!(self.exec, Exec::Eng(_)) {
            for c in 0..self.refs.len() {
                if self.refs[c].resolved {
                    go(self, &mut |h, rep| h.run_ref(rep, c));
                }
            }
        }
        self.dead = true;
    }

    /// current contents of every placed item
    pub fn check_items(&mut self, rep: &mut Report, why: &str) {
        for i in 0..self.items.len() {
            let it = &self.items[i];
            let Some(a) = it.addr else { continue };
            let mut want = it.val.clone();
            if let IK::Abs(x) = it.kind {
                if !it.open {
                } else if let (Some(t), true) = (self.labs[x].addr, self.labs[x].what != What::Unbound) {
                    want = t.to_le_bytes().to_vec();
                    // resolved by the finalization that just happened
                    if why == "after finalize" {
                        self.items[i].val = want.clone();
                        self.items[i].open = false;
                    } else {
                        continue;
                    }
                } else {
                    continue;
                }
            }
            rep.add("item_value_checks", 1);
            let got = unsafe { std::slice::from_raw_parts(a as *const u8, want.len()) };
            if got != &want[..] {
                let it = &self.items[i];
                let tags: &[&str] = if matches!(it.kind, IK::Abs(_)) { &["C07", "C06", "C16"] } else { &["C07", "C16"] };
                let d = format!("{}: item {:?} at {:#x} holds {:02x?}, expected {:02x?}", why, it.kind, a, got, want);
                self.violate(rep, tags, "item value", d);
                return;
            }
        }
    }

    fn check_slice(&mut self, rep: &mut Report) {
        let s = self.jit.as_slice();
        let want = self.blocks[self.page].last().map(|b| b.1).unwrap_or(0);
        let (p, l) = (s.as_ptr() as u64, s.len());
        rep.add("slice_checks", 1);
        let at = self.base[self.page] - self.off[self.page] as u64;
        if l != want || l > 0 && p != at {
            let d = format!("as_slice is {:#x} bytes at {:#x}, expected {:#x} bytes at {:#x}", l, p, want, at);
            self.violate(rep, &["C08"], "code slice", d);
        }
    }

    /// All address queries of (a sample of) the labels.
    fn check_labels(&mut self, rep: &mut Report, max: usize) {
        let n = self.labs.len();
        for c in 0..n.min(max) {
            let i = if n <= max { c } else { self.r.below(n as u64) as usize };
            let lab = self.labs[i].clone();
            let j = &mut *self.jit;
            let l = lab.l;
            match lab.addr {
                Some(a) => {
                    let q = caught(|| {
                        (
                            j.get_label_u64(l),
                            j.get_label_address(l).as_ptr() as u64,
                            j.get_label_addr::<u64, u64>(l) as usize as u64,
                            j.get_label_addr2::<u64, u64, u64>(l) as usize as u64,
                        )
                    });
                    rep.add("label_queries", 4);
                    if q != Ok((a, a, a, a)) {
                        let d = format!("L{} bound at {:#x}: queries answer {:x?}", i, a, q);
                        self.violate(rep, &["C12", "C16"], "label address", d);
                        return;
                    }
                }
                None => {
                    let q = [
                        caught(|| j.get_label_u64(l)),
                        caught(|| j.get_label_address(l).as_ptr() as u64),
                        caught(|| j.get_label_addr::<u64, u64>(l) as usize as u64),
                        caught(|| j.get_label_addr2::<u64, u64, u64>(l) as usize as u64),
                    ];
                    rep.add("unbound_queries", 4);
                    if let Some(a) = q.iter().find(|x| x.is_ok()) {
                        let d = format!("L{} has no position but a query answers {:x?}", i, a);
                        self.violate(rep, &["C12", "C11"], "unbound label has an address", d);
                        return;
                    }
                }
            }
        }
    }

    /// Run generated code at `entry`: (rax, xmm0, signal, rip)
    pub fn exec(&mut self, entry: u64) -> Option<(u64, [u64; 2], u64, u64)> {
        progress(self.id, 3);
        let r = match self.exec {
            Exec::Eng(arena) => {
                let mut st = St { gpr: [0; 16], flags: 0, mxcsr: 0x1f80, xmm: [[0; 2]; 16] };
                for g in st.gpr.iter_mut() {
                    *g = self.r.next();
                }
                st.gpr[4] = arena + 2048;
                unsafe { ((arena + 2048) as *mut u64).write(eng::exit_addr()) };
                let o = eng::run(entry, &st);
                Some((o.st.gpr[0], o.st.xmm[0], o.sig, o.rip))
            }
            Exec::Call => {
                let f: extern "C" fn() -> u64 = unsafe { std::mem::transmute(entry) };
                Some((f(), [0; 2], 0, 0))
            }
            Exec::None => None,
        };
        progress(self.id, 4);
        r
    }

    /// Execute resolved references and compare what they reach with where the label is.
    pub fn run_refs(&mut self, rep: &mut Report) {
        if self.exec == Exec::None {
            return;
        }
        let n = self.refs.len();
        for c in 0..n {
            if self.dead {
                return;
            }
            // all recent ones, a sample of the older ones
            if n - c > 30 && !self.r.chance(1, 4) {
                continue;
            }
            if !self.refs[c].resolved {
                continue;
            }
            self.run_ref(rep, c);
        }
    }

    pub fn run_ref(&mut self, rep: &mut Report, c: usize) {
        let rf = self.refs[c].clone();
        let (name, k, _) = REFS[rf.form];
        let dest = rf.patched.unwrap_or(rf.lab);
        let Some(la) = self.labs[dest].addr else { return };
        let what = self.labs[dest].what.clone();
        let item = if let What::Item(i) = what { Some(i) } else { None };
        if let (Some(i), K::CallCell | K::JumpCell) = (item, k) {
            if self.items[i].open {
                return;
            }
        }
        if self.exec == Exec::Call && k == K::Round {
            return;
        }
        let ld = |a: u64| unsafe { (a as *const u64).read_unaligned() };
        let mut want_mem: Option<(usize, Vec<u8>)> = None;
        let want: (&str, u64);
        let mut want_x: Option<[u64; 2]> = None;
        match k {
            K::Jump | K::Call => {
                let What::Pad(id) = what else {
                    // patched to a position that is not runnable
                    if rf.patched.is_some() {
                        self.run_unrunnable(rep, &rf, la);
                    }
                    return;
                };
                want = ("reached pad", id);
            }
            K::Lea => want = ("address", la),
            K::Load => want = ("loaded", ld(la)),
            K::Store(w) => {
                want = ("", 0);
                let i = item.unwrap();
                let mut v = self.items[i].val.clone();
                v[..w].copy_from_slice(&rf.imm.to_le_bytes()[..w]);
                want_mem = Some((i, v));
            }
            K::Add => {
                want = ("", 0);
                let i = item.unwrap();
                let mut v = self.items[i].val.clone();
                let x = u64::from_le_bytes(v[..8].try_into().unwrap()).wrapping_add(rf.imm as u64);
                v[..8].copy_from_slice(&x.to_le_bytes());
                want_mem = Some((i, v));
            }
            K::Cmp(w) => {
                let i = item.unwrap();
                // make the comparison meaningful: sometimes equal
                if self.r.chance(1, 2) {
                    let b = rf.imm.to_le_bytes();
                    self.poke(i, &b[..w]);
                }
                let eq = self.items[i].val[..w] == rf.imm.to_le_bytes()[..w];
                want = ("compared equal", eq as u64);
            }
            K::CallCell | K::JumpCell => {
                let Some(x) = self.items[item.unwrap()].leads() else { return };
                let What::Pad(id) = self.labs[x].what else { return };
                want = ("reached pad", id);
            }
            K::Round => {
                let i = item.unwrap();
                let mut b = vec![];
                for _ in 0..2 {
                    b.extend_from_slice(&(self.r.range(-100000, 100000) as f64 / 16.0).to_bits().to_le_bytes());
                }
                self.poke(i, &b);
                let f = |k: usize| f64::from_bits(u64::from_le_bytes(b[k..k + 8].try_into().unwrap())).trunc().to_bits();
                want_x = Some([f(0), f(8)]);
                want = ("", 0);
            }
        }
        progress_text(&format!("running {} L{} at {:#x}", name, dest, rf.entry));
        let Some((rax, x, sig, rip)) = self.exec(rf.entry) else { return };
        rep.add("reference_runs", 1);
        rep.distinct.insert(hash((rf.form, rf.page, self.page_of(la).map(|p| p.0), rf.entry < la, self.fins, rf.patched.is_some(), rf.imm as i8 as i64 == rf.imm, (la.wrapping_sub(rf.entry) as i64) / 64)));
        let mut tags = if rf.patched.is_some() { vec!["C09", "C16"] } else { vec!["C06", "C16"] };
        if matches!(k, K::CallCell | K::JumpCell) {
            tags.push("C07");
        }
        let mut d = String::new();
        if sig != 0 {
            d = format!("signal {} at {:#x}", sig, rip);
        } else if let Some(w) = want_x {
            if w != x {
                d = format!("xmm0 {:x?}, expected {:x?}", x, w);
            }
        } else if !want.0.is_empty() && rax != want.1 {
            d = format!("{} {:#x}, expected {:#x}", want.0, rax, want.1);
        }
        if let (Some((i, v)), true) = (&want_mem, d.is_empty()) {
            let a = self.items[*i].addr.unwrap();
            let got = unsafe { std::slice::from_raw_parts(a as *const u8, v.len()) };
            if got != &v[..] {
                d = format!("item holds {:02x?}, expected {:02x?}", got, v);
            }
        }
        if d.is_empty() {
            if let Some((i, v)) = want_mem {
                self.items[i].val = v.clone();
                let (p, o) = self.page_of(self.items[i].addr.unwrap()).unwrap();
                self.img[p][o..o + v.len()].copy_from_slice(&v);
                self.compare(rep, false, "running a store");
            }
            return;
        }
        let d = format!("{} at {:#x} (page {}, {} finalizations, patched {:?}) to L{} at {:#x}: {}", name, rf.entry, rf.page, self.fins, rf.patched, dest, la, d);
        self.violate(rep, &tags, &format!("reference goes elsewhere: {}", name), d);
    }

    fn run_unrunnable(&mut self, rep: &mut Report, rf: &Ref, la: u64) {
        if let (Some((2, _)), Exec::Eng(_)) = (self.page_of(la), self.exec) {
            let Some((_, _, sig, rip)) = self.exec(rf.entry) else { return };
            rep.add("reference_runs", 1);
            if sig != libc::SIGSEGV as u64 || rip != la {
                let d = format!("patched to data at {:#x}: signal {} at {:#x}", la, sig, rip);
                self.violate(rep, &["C09"], "patched jump goes elsewhere", d);
            }
        }
    }

    /// the program writes to an item
    fn poke(&mut self, i: usize, b: &[u8]) {
        let a = self.items[i].addr.unwrap();
        unsafe { std::ptr::copy_nonoverlapping(b.as_ptr(), a as *mut u8, b.len()) };
        self.items[i].val[..b.len()].copy_from_slice(b);
        let (p, o) = self.page_of(a).unwrap();
        self.img[p][o..o + b.len()].copy_from_slice(b);
    }

    fn patch(&mut self, rep: &mut Report) {
        let v: Vec<usize> = (0..self.refs.len()).filter(|k| self.refs[*k].resolved && patchable(self.refs[*k].form) && (self.refs[*k].site.is_some())).collect();
        if v.is_empty() {
            return;
        }
        let c = *self.r.pick(&v);
        let rf = self.refs[c].clone();
        let site = rf.site.unwrap();
        let mode = self.r.below(12);
        let by_label = self.r.chance(1, 2);
        let dest = if mode == 0 {
            // no position: must fail and change nothing
            match self.pick_lab(|l, _| l.what == What::Unbound) {
                Some(x) => x,
                None => self.new_lab(true),
            }
        } else if let (true, Some(x)) = (mode < 6, self.labs.iter().position(|l| l.addr == Some(self.base[rf.page] + rf.hi as u64) && matches!(l.what, What::Pad(_)))) {
            // to the code right behind it
            rep.add("patches_to_next", 1);
            x
        } else if mode == 1 {
            match self.pick_lab(|l, _| l.addr.is_some()) {
                Some(x) => x,
                None => return,
            }
        } else {
            match self.pick_lab(|l, _| matches!(l.what, What::Pad(_))) {
                Some(x) => x,
                None => return,
            }
        };
        let unbound_site = mode == 2 && self.r.chance(1, 3);
        self.t(format!("patch {} at L{} ({:#x}) to L{} by {}", REFS[rf.form].0, site, self.labs[site].addr.unwrap(), dest, if by_label { "label" } else { "address" }));
        self.compare(rep, true, "before patch");
        if self.dead {
            return;
        }
        let (sl, dl) = (self.labs[site].l, self.labs[dest].l);
        let sl = if unbound_site { self.jit.label() } else { sl };
        if unbound_site {
            self.labs.push(Lab { l: sl, what: What::Unbound, addr: None, pad: true });
        }
        let sa = CodePtr::from(self.labs[site].addr.unwrap() as *mut u8);
        let j = &mut *self.jit;
        let res = caught(|| if by_label || unbound_site { j.apply_jmp_patch(sl, dl) } else { j.apply_jmp_patch_address(sa, dl) });
        rep.add("patches", 1);
        let must_fail = unbound_site || self.labs[dest].addr.is_none();
        match (res, must_fail) {
            (Err(m), false) => {
                self.violate(rep, &["C09"], "patch panicked", m);
                return;
            }
            (Ok(()), true) => {
                let d = format!("patching to a label without position succeeded (unbound site {})", unbound_site);
                self.violate(rep, &["C09", "C11"], "patch with an unbound label", d);
                return;
            }
            (Err(_), true) => {
                rep.add("patches_refused", 1);
                self.compare(rep, true, "patch refused");
                return;
            }
            (Ok(()), false) => {}
        }
        // only inside the instruction may bytes have changed
        let m = self.mem(rf.page);
        let (lo, hi) = (rf.lo, rf.hi);
        let ch: Vec<usize> = (lo..hi).filter(|i| m[*i] != self.img[rf.page][*i]).collect();
        if let (Some(a), Some(b)) = (ch.first(), ch.last()) {
            if b - a < 4 {
                self.img[rf.page][lo..hi].copy_from_slice(&m[lo..hi]);
            }
        }
        self.refs[c].patched = Some(dest);
        rep.distinct.insert(hash(("patch", rf.page, self.page_of(self.labs[dest].addr.unwrap()).map(|x| x.0), rf.form, by_label, self.fins, self.labs[dest].addr.unwrap() < rf.entry)));
        self.compare(rep, true, "patch");
        if self.dead {
            return;
        }
        self.run_ref(rep, c);
        if !self.dead && self.r.chance(1, 2) {
            self.run_refs(rep);
        }
    }

    fn query(&mut self, rep: &mut Report) {
        self.t("query".into());
        self.check_labels(rep, 12);
        if self.dead {
            return;
        }
        self.check_slice(rep);
        self.check_cursors(rep);
        self.check_items(rep, "later");
        self.include(rep);
        self.peek(rep);
        for _ in 0..4 {
            self.pointers(rep);
        }
    }

    /// bytes read through the index operators, and position arithmetic over the block list
    fn peek(&mut self, rep: &mut Report) {
        for _ in 0..8 {
            let p = self.r.below(3) as usize;
            let c = self.cur[p];
            if c == 0 {
                continue;
            }
            let k = self.r.below(c as u64) as usize;
            let at = Pos::from(self.off[p] + k);
            let n = self.r.range(-3, 3) as i32;
            let m = (k as i64 + n as i64).clamp(0, c as i64 - 1) as usize;
            let near = at + (m as i64 - k as i64) as i32;
            let want = (self.img[p][k], self.img[p][m]);
            let got = (self.jit[Page(p)][at], self.jit[Page(p)][near]);
            let sel = if p == self.page { (self.jit[at], self.jit[near]) } else { want };
            let back = at - Pos::from(self.off[p]);
            rep.add("index_reads", 1);
            if got != want || sel != want || back != k || near != Pos::from(self.off[p] + m) {
                let d = format!("page {} position {:#x}: reads {:02x?} / {:02x?}, holds {:02x?}; distance {:#x}", p, k, got, sel, want, back);
                self.violate(rep, &["C08"], "byte read by position", d);
                return;
            }
        }
        for p in 0..3 {
            for (i, b) in self.blocks[p].iter().enumerate() {
                let g = self.jit[Page(p)].code_block[i];
                if (g.1 - g.0, g.2 - g.0) != (b.1 - b.0, b.2 - b.0) {
                    let d = format!("page {} block {} lengths {:#x}/{:#x}, expected {:x?}", p, i, g.1 - g.0, g.2 - g.0, b);
                    self.violate(rep, &["C08"], "code block length", d);
                    return;
                }
            }
        }
    }

    /// pointer arithmetic and ordering, between labels and with any other address of the process
    fn pointers(&mut self, rep: &mut Report) {
        let v: Vec<u64> = self.labs.iter().filter_map(|l| l.addr).collect();
        let pt = |h: &mut Hist| match h.r.below(5) {
            0 | 1 if !v.is_empty() => *h.r.pick(&v),
            2 => {
                let p = h.r.below(3) as usize;
                h.base[p] + h.r.below(PAGE)
            }
            3 => {
                // a distance around a power of two from this instance
                let d = (1u64 << h.r.below(47)).wrapping_add(h.r.below(5)).wrapping_sub(2);
                let p = h.r.below(3) as usize;
                let b = h.base[p];
                if h.r.chance(1, 2) { b.wrapping_add(d) } else { b.wrapping_sub(d) }
            }
            _ => {
                let n = 17 + h.r.below(47);
                h.r.next() >> n
            }
        };
        {
            let m = (1u64 << 47) - 1;
            let (a, b) = ((pt(self) & m).max(1), (pt(self) & m).max(1));
            let (pa, pb) = (CodePtr::from(a as *mut u8), CodePtr::from(b as *mut u8));
            let n = 17 + self.r.below(40);
            let k = self.r.next() as usize >> n;
            rep.add("pointer_checks", 1);
            rep.distinct.insert(hash(("ptr", a < b, 64 - (a as i64 - b as i64).unsigned_abs().leading_zeros(), k.leading_zeros())));
            let ok = pa - pb == (a as i64 - b as i64)
                && (pa < pb) == (a < b)
                && (pa > pb) == (a > b)
                && (pa <= pb) == (a <= b)
                && (pa == pb) == (a == b)
                && (pa + k).as_ptr() as u64 == a + k as u64
                && (pa + k) - pa == k as i64
                && pa.partial_cmp(&pb) == a.partial_cmp(&b);
            if !ok {
                let d = format!("arithmetic/ordering of {:#x} and {:#x} (+{:#x})", a, b, k);
                self.violate(rep, &["C12"], "code pointer arithmetic", d);
            }
        }
    }

    /// membership test around every page boundary, and for foreign addresses
    pub fn include(&mut self, rep: &mut Report) {
        let b: Vec<u64> = (0..3).map(|p| self.base[p] - self.off[p] as u64).collect();
        let mut pts: Vec<u64> = vec![];
        for p in 0..3 {
            for d in [0i64, 1, -1, 4096, -4096, 15, -16] {
                pts.push((b[p] as i64 + d) as u64);
                pts.push((b[p] as i64 + PAGE as i64 + d) as u64);
            }
            let x = self.r.below(PAGE);
            pts.push(b[p] + x);
        }
        pts.push(&self.sig as *const u64 as u64);
        pts.push(eng::exit_addr());
        pts.push(self.r.next() >> 17);
        pts.push(1);
        pts.push(u64::MAX);
        for a in pts {
            let want = a >= b[0] && a < b[0] + PAGE || a >= b[1] && a < b[1] + PAGE;
            let got = self.jit.include(a as *mut u8);
            rep.add("membership_checks", 1);
            if got != want {
                let d = format!("include({:#x}) = {} with page {} selected; pages at {:x?}", a, got, self.page, b);
                self.violate(rep, &["C12"], "membership test", d);
                return;
            }
        }
        rep.distinct.insert(hash(("include", self.page, self.cur[0] > 0, self.cur[1] > 0)));
    }

    fn relocate(&mut self, rep: &mut Report) {
        // move the manager itself around in memory
        self.t("move".into());
        let b = unsafe { ManuallyDrop::take(&mut self.jit) };
        let mut spare: Vec<JitMemory> = Vec::with_capacity(1);
        spare.push(*b);
        let noise = vec![0xa5u8; std::mem::size_of::<JitMemory>()];
        self.jit = ManuallyDrop::new(Box::new(spare.pop().unwrap()));
        drop(noise);
        rep.add("moves", 1);
        self.check_cursors(rep);
        self.check_labels(rep, 6);
    }

    pub fn step(&mut self, rep: &mut Report) {
        if self.dead {
            return;
        }
        self.steps += 1;
        rep.add("steps", 1);
        let p = self.prof;
        if !self.room() {
            // full: only finalize, query, patch
            match self.r.below(4) {
                0 if (0..3).all(|p| self.cur[p] + 2000 < LIM) => self.finalize(rep),
                1 => self.query(rep),
                2 => self.patch(rep),
                _ => self.dead = true,
            }
            return;
        }
        if self.r.chance(1, 500) {
            let n = match self.r.below(3) {
                0 if self.r.chance(1, 16) => (1 << 20) + self.r.below(1 << 18),
                0 => 1 << 16,
                1 => 1 << self.r.below(16),
                _ => self.r.below(70_000),
            };
            self.burst(rep, n);
        }
        let w = [p.raw, p.align, p.plain, p.page, p.pad, p.bind, p.refs, p.item, p.fin, p.patch, p.query, p.mv, p.data_emit, p.write];
        let mut x = self.r.below(w.iter().sum());
        let mut op = 0;
        while x >= w[op] {
            x -= w[op];
            op += 1;
        }
        match op {
            0 => {
                let v = if self.r.chance(1, 3) { self.r.int() } else { self.r.next() };
                let k = self.r.below(7);
                let pg = self.page;
                if self.r.chance(1, 12) {
                    // up to the last bytes before a round position
                    let n = *self.r.pick(&[16usize, 64, 256, 4096]);
                    let o = self.cur[pg];
                    let to = (o / n + 1) * n - 1 - self.r.below(9) as usize;
                    if to > o && (n < 4096 || self.r.chance(1, 3)) {
                        self.t(format!("fill page {} up to {:#x}", pg, to));
                        self.raw(rep, &vec![0x90; to - o]);
                    }
                }
                self.t(format!("emit kind {} {:#x} page {}", k, v, pg));
                match k {
                    0 => {
                        self.jit.emitb(v as u8);
                        self.appended(rep, pg, &[v as u8]);
                    }
                    1 => {
                        self.jit.emitw(v as u16);
                        self.appended(rep, pg, &(v as u16).to_le_bytes());
                    }
                    2 => {
                        self.jit.emitl(v as u32);
                        self.appended(rep, pg, &(v as u32).to_le_bytes());
                    }
                    3 => {
                        self.jit.emitq(v);
                        self.appended(rep, pg, &v.to_le_bytes());
                    }
                    4 => {
                        let (name, f, bits) = *self.r.pick(DQ);
                        self.t(format!("{} page {}", name, pg));
                        f(&mut self.jit);
                        self.appended(rep, pg, &bits.to_le_bytes());
                    }
                    _ => {
                        let n = if self.r.chance(1, 10) { self.r.below(1200) } else { self.r.below(40) } as usize;
                        let b: Vec<u8> = (0..n).map(|_| self.r.next() as u8).collect();
                        self.raw(rep, &b);
                    }
                }
                rep.distinct.insert(hash(("emit", k, self.cur[pg] % 16, v as u8)));
            }
            1 => {
                let k = self.r.below(13);
                let pg = self.page;
                let n = match k {
                    0..=3 => 4,
                    4..=7 => 8,
                    8..=11 => 16,
                    _ => 4096,
                };
                self.t(format!("align {} at {:#x} page {}", n, self.cur[pg], pg));
                match n {
                    4 => self.jit.align4(),
                    8 => self.jit.align8(),
                    16 => self.jit.align16(),
                    _ => self.jit.align_page(),
                }
                let o = self.cur[pg];
                self.cur[pg] = (o + n - 1) / n * n;
                // padding bytes are not specified
                let m = self.mem(pg);
                let c = self.cur[pg];
                self.img[pg][o..c].copy_from_slice(&m[o..c]);
                rep.add("alignments", 1);
                rep.distinct.insert(hash(("align", n, o % n)));
            }
            2 => {
                if self.r.chance(1, 2) {
                    let f = *self.r.pick(PLAIN);
                    self.t(format!("instruction on page {}", self.page));
                    f(&mut self.jit);
                    self.absorbed(rep, 32);
                } else {
                    // instructions in a row, often related ones
                    let set: [u64; 3] = std::array::from_fn(|_| self.r.below(16));
                    for _ in 0..1 + self.r.below(6) {
                        let (a, b) = (*self.r.pick(&set), *self.r.pick(&set));
                        let (k, i) = (self.r.below(ROW.len() as u64) as usize, if self.r.chance(1, 2) { self.r.below(3) as i64 } else { self.r.next() as i8 as i64 });
                        self.t(format!("instruction {} of {} {} {} on page {}", k, a, b, i, self.page));
                        ROW[k](&mut self.jit, a, b, i);
                        self.absorbed(rep, 15);
                        rep.add("instructions_in_a_row", 1);
                        if self.dead {
                            return;
                        }
                        self.compare(rep, false, "an instruction");
                        if self.dead {
                            return;
                        }
                    }
                }
            }
            3 => {
                let k = self.r.below(2) as usize;
                self.t(format!("select_page {}", k));
                self.jit.select_page(k);
                self.page = k;
            }
            4 => {
                let l = match self.pick_lab(|l, _| l.pad && l.what == What::Unbound) {
                    Some(l) if self.r.chance(2, 3) => l,
                    _ => self.new_lab(true),
                };
                self.t(format!("pad L{} page {} at {:#x}", l, self.page, self.cur[self.page]));
                self.emit_pad(rep, l);
            }
            5 => {
                let l = match self.pick_lab(|l, _| !l.pad && l.what == What::Unbound) {
                    Some(l) if self.r.chance(1, 2) => l,
                    _ => self.new_lab(false),
                };
                if self.r.chance(2, 3) {
                    let pg = if self.r.chance(1, 5) { 2 } else { self.page };
                    self.t(format!("bind L{} page {}", l, pg));
                    if pg == 2 {
                        // position of the data page
                        let d = self.labs[l].l;
                        self.jit.bind_label_with_page(Page(2), d);
                        self.labs[l].what = What::Plain;
                        self.labs[l].addr = Some(self.abs(2));
                        self.settle(l);
                    } else {
                        self.bind_here(l, What::Plain);
                    }
                    if self.r.chance(1, 6) {
                        self.finalize(rep);
                    }
                }
            }
            6 => self.emit_ref(rep),
            7 => self.declare(rep),
            8 => self.finalize(rep),
            9 => self.patch(rep),
            10 => self.query(rep),
            11 => self.relocate(rep),
            12 => {
                // explicit page access, the data page included
                let pg = self.r.below(3) as usize;
                let v = self.r.next();
                self.t(format!("page {} emitl/align8", pg));
                self.jit[Page(pg)].emitl(v as u32);
                self.appended(rep, pg, &(v as u32).to_le_bytes());
                self.jit[Page(pg)].emitb(v as u8);
                self.appended(rep, pg, &[v as u8]);
            }
            _ => {
                // the program stores to items
                let v: Vec<usize> = (0..self.items.len()).filter(|i| self.items[*i].addr.is_some() && !self.items[*i].val.is_empty() && !self.items[*i].open).collect();
                if !v.is_empty() {
                    let i = *self.r.pick(&v);
                    let mut b: Vec<u8> = self.items[i].val.iter().map(|_| self.r.next() as u8).collect();
                    if let IK::Abs(_) = self.items[i].kind {
                        // mostly redirected to other code
                        let to = if self.r.chance(3, 4) { self.pick_lab(|l, _| matches!(l.what, What::Pad(_))) } else { None };
                        if let Some(x) = to {
                            b = self.labs[x].addr.unwrap().to_le_bytes().to_vec();
                        }
                        self.items[i].over = Some(to);
                        rep.add("cells_redirected", 1);
                    }
                    self.t(format!("program writes item {}", i));
                    self.poke(i, &b);
                    rep.add("program_writes", 1);
                }
            }
        }
        if self.dead {
            return;
        }
        self.check_cursors(rep);
        if self.dead {
            return;
        }
        let full = self.steps % 32 == 0;
        self.compare(rep, full, "step");
    }

    /// Drop the manager, then keep using what it generated.
    pub fn end(mut self, rep: &mut Report) {
        if self.broken {
            self.post_mortem(rep);
        }
        if !self.dead {
            self.finalize(rep);
        }
        if !self.dead {
            self.query(rep);
        }
        rep.distinct.insert(self.sig);
        // from here on self.jit is gone
        let real = unsafe { ManuallyDrop::take(&mut self.jit) };
        if !self.dead && self.exec != Exec::None {
            self.t("drop".into());
            drop(real);
            rep.add("drops", 1);
            // no API from here on
            self.check_items(rep, "after drop");
            let n = self.refs.len();
            for c in 0..n {
                if self.dead || !self.refs[c].resolved || n > 40 && !self.r.chance(1, 3) {
                    continue;
                }
                let v = rep.violations;
                self.run_ref(rep, c);
                if rep.violations != v {
                    self.violate(rep, &["C12"], "generated code broken after drop", format!("reference {}", c));
                }
            }
        } else {
            std::mem::forget(real);
        }
        crate::galloc::free_big(self.base[0] as usize - self.off[0]);
    }
}
