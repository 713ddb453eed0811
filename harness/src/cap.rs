//! Monitor of page capacity: every kind of emission at every distance from the end of every page.
//! Each experiment runs in a forked copy of a process whose page is almost full.
use crate::hist::*;
use crate::rng::Rng;
use crate::util::*;
use monoasm::*;
use monoasm_macro::monoasm;

const TAIL: usize = 8192; // distance from the end at which experiments start
const WIN: usize = 8192; // monitored bytes at both ends of every page
const P: usize = PAGE as usize;

#[derive(Clone, Copy, Debug)]
enum Op {
    B,
    W,
    L,
    Q,
    Slice(usize),
    Align(usize),
    Inst(usize),
    Item(u8, usize),
    Reloc,
    Finalize,
}

pub type I = fn(&mut JitMemory, DestLabel);
/// one instruction of every encoding shape and length
pub static INSTS: &[(&str, I)] = &[
    ("ret", |jit, _| monoasm! { jit, ret; }),
    ("leave", |jit, _| monoasm! { jit, leave; }),
    ("int3", |jit, _| monoasm! { jit, int3; }),
    ("syscall", |jit, _| monoasm! { jit, syscall; }),
    ("jmp l", |jit, l| monoasm! { jit, jmp l; }),
    ("call l", |jit, l| monoasm! { jit, call l; }),
    ("jne l", |jit, l| monoasm! { jit, jne l; }),
    ("jmp rax", |jit, _| monoasm! { jit, jmp rax; }),
    ("jmp [r12 + 8]", |jit, _| monoasm! { jit, jmp [r12 + 8]; }),
    ("call r9", |jit, _| monoasm! { jit, call r9; }),
    ("call (8)", |jit, _| monoasm! { jit, call (8); }),
    ("call [rip + l]", |jit, l| monoasm! { jit, call [rip + l]; }),
    ("pushq rax", |jit, _| monoasm! { jit, pushq rax; }),
    ("pushq r12", |jit, _| monoasm! { jit, pushq r12; }),
    ("popq r13", |jit, _| monoasm! { jit, popq r13; }),
    ("movq rax, rbx", |jit, _| monoasm! { jit, movq rax, rbx; }),
    ("movl rax, rbx", |jit, _| monoasm! { jit, movl rax, rbx; }),
    ("movq rax, imm64", |jit, _| monoasm! { jit, movq rax, (0x1122_3344_5566_7788); }),
    ("movq rax, imm32", |jit, _| monoasm! { jit, movq rax, (0x7788); }),
    ("movq [r12 + r13*8 + 0x12345678], imm", |jit, _| monoasm! { jit, movq [r12 + r13 * 8 + (0x12345678)], (0x11223344); }),
    ("movw [rbp + rcx*2 + 5], imm", |jit, _| monoasm! { jit, movw [rbp + rcx * 2 + 5], 300; }),
    ("movb [rsp], imm", |jit, _| monoasm! { jit, movb [rsp], 5; }),
    ("movl [rip + l], imm", |jit, l| monoasm! { jit, movl [rip + l], (0x11223344); }),
    ("lea rax, [rip + l]", |jit, l| monoasm! { jit, lea rax, [rip + l]; }),
    ("addq rax, 1", |jit, _| monoasm! { jit, addq rax, 1; }),
    ("addq rax, imm32", |jit, _| monoasm! { jit, addq rax, 0x11223344; }),
    ("cmpb rax, 5", |jit, _| monoasm! { jit, cmpb rax, 5; }),
    ("cmpw [rip + l], imm", |jit, l| monoasm! { jit, cmpw [rip + l], 300; }),
    ("testq [r13 + 1000], imm", |jit, _| monoasm! { jit, testq [r13 + 1000], 0x1234567; }),
    ("shlq r10, 3", |jit, _| monoasm! { jit, shlq r10, 3; }),
    ("imul rax, r9", |jit, _| monoasm! { jit, imul rax, r9; }),
    ("setne rsi", |jit, _| monoasm! { jit, setne rsi; }),
    ("cmovne rax, r9", |jit, _| monoasm! { jit, cmovneq rax, r9; }),
    ("movsd xmm9, [r12 + 300]", |jit, _| monoasm! { jit, movsd xmm9, [r12 + 300]; }),
    ("roundpd xmm9, [rip + l], 1", |jit, l| monoasm! { jit, roundpd xmm9, [rip + l], 1; }),
    ("cvtsi2sdq xmm9, r10", |jit, _| monoasm! { jit, cvtsi2sdq xmm9, r10; }),
    ("dq", |jit, _| monoasm! { jit, dq 0x1122334455667788; }),
];

fn ops() -> Vec<Op> {
    let mut v = vec![Op::B, Op::W, Op::L, Op::Q, Op::Align(4), Op::Align(8), Op::Align(16), Op::Align(4096), Op::Reloc, Op::Finalize];
    for n in [0usize, 1, 2, 3, 5, 7, 9, 15, 16, 17, 31] {
        v.push(Op::Slice(n));
    }
    for i in 0..INSTS.len() {
        v.push(Op::Inst(i));
    }
    for k in 0..3 {
        v.push(Op::Item(k, 0));
    }
    for n in [0usize, 1, 7, 8, 16, 17, 33] {
        v.push(Op::Item(3, n));
    }
    // sizes no page can hold, some of which bring the position back into the page when added modulo 2^32 or 2^64
    for n in [P, 1 << 32, (1 << 32) + 4, 1 << 63, usize::MAX, usize::MAX - 20, 0usize.wrapping_sub(P / 2), 0usize.wrapping_sub(P - 100), 0usize.wrapping_sub(P)] {
        v.push(Op::Item(3, n));
    }
    v
}

/// Snapshot of both ends of every page.
fn windows(b: &[u64; 3]) -> Vec<(usize, usize, Vec<u8>)> {
    let mut v = vec![];
    for p in 0..3 {
        for o in [0, P - WIN] {
            let m = unsafe { std::slice::from_raw_parts((b[p] as usize + o) as *const u8, WIN) };
            v.push((p, o, m.to_vec()));
        }
    }
    v
}

/// Every monitored byte outside `free` (page, offsets) is as before.
fn intact(w: &[(usize, usize, Vec<u8>)], b: &[u64; 3], free: &[(usize, usize, usize)]) -> Result<(), String> {
    for (p, o, old) in w {
        let m = unsafe { std::slice::from_raw_parts((b[*p] as usize + o) as *const u8, WIN) };
        if m == &old[..] {
            continue;
        }
        for i in 0..WIN {
            let x = o + i;
            if m[i] != old[i] && !free.iter().any(|f| f.0 == *p && f.1 <= x && x < f.2) {
                return Err(format!("page {} offset {:#x} changed from {:#x} to {:#x}", p, x, old[i], m[i]));
            }
        }
    }
    Ok(())
}

struct Pipe(i32);
impl Pipe {
    fn say(&self, key: &str, detail: &str) {
        let s = format!("{}\x1f{}\x1e", key, detail);
        unsafe { libc::write(self.0, s.as_ptr() as *const _, s.len()) };
    }
}

/// Run `f` in a copy of this process.
fn forked(rep: &mut Report, what: &str, f: impl FnOnce(&Pipe)) {
    let mut fd = [0i32; 2];
    progress(0, 4);
    progress_text(what);
    unsafe {
        assert_eq!(libc::pipe(fd.as_mut_ptr()), 0);
        let pid = libc::fork();
        assert!(pid >= 0, "fork");
        if pid == 0 {
            libc::close(fd[0]);
            libc::alarm(60);
            f(&Pipe(fd[1]));
            libc::_exit(0);
        }
        libc::close(fd[1]);
        let mut out = vec![];
        let mut buf = [0u8; 4096];
        loop {
            let n = libc::read(fd[0], buf.as_mut_ptr() as *mut _, buf.len());
            if n <= 0 {
                break;
            }
            out.extend_from_slice(&buf[..n as usize]);
        }
        libc::close(fd[0]);
        let mut st = 0;
        libc::waitpid(pid, &mut st, 0);
        for l in String::from_utf8_lossy(&out).split('\x1e') {
            if let Some((k, d)) = l.split_once('\x1f') {
                if let Some(c) = k.strip_prefix('+') {
                    rep.add(c, 1);
                } else {
                    rep.violate(k, format!("{}: {}", what, d));
                }
            }
        }
        rep.add("experiments", 1);
        if libc::WIFSIGNALED(st) {
            rep.violate("C10: access outside the memory of the instance", format!("{}: signal {}", what, libc::WTERMSIG(st)));
        } else if libc::WEXITSTATUS(st) != 0 {
            rep.violate("C10: experiment ended abnormally", format!("{}: exit status {}", what, libc::WEXITSTATUS(st)));
        }
    }
}

fn position(jit: &mut JitMemory, p: usize) -> usize {
    if p < 2 {
        let s = jit.get_page();
        jit.select_page(p);
        let c = jit.get_current();
        jit.select_page(s);
        c
    } else {
        // the data page reports its position through a label
        let l = jit.label();
        jit.bind_label_with_page(Page(2), l);
        (jit.get_label_u64(l) - page_base(jit, 2)) as usize
    }
}

fn act(jit: &mut JitMemory, p: usize, op: Op, l: DestLabel) -> Option<DestLabel> {
    match op {
        Op::B => jit[Page(p)].emitb(0x5a),
        Op::W => jit[Page(p)].emitw(0x5a5b),
        Op::L => jit[Page(p)].emitl(0x5a5b5c5d),
        Op::Q => jit[Page(p)].emitq(0x5a5b5c5d_5e5f6061),
        Op::Slice(n) => {
            if p < 2 {
                jit.emit(&vec![0x77u8; n])
            } else {
                for _ in 0..n {
                    jit[Page(p)].emitb(0x77)
                }
            }
        }
        Op::Align(n) => match n {
            4 => jit[Page(p)].align4(),
            8 => jit[Page(p)].align8(),
            16 => jit[Page(p)].align16(),
            _ => jit[Page(p)].align_page(),
        },
        Op::Inst(i) => INSTS[i].1(jit, l),
        Op::Item(k, n) => {
            let x = match (k, p) {
                (0, 2) => jit.data_i64(0x1234_5678_9abc_def0),
                (0, _) => jit.const_i64(0x1234_5678_9abc_def0),
                (1, 2) => jit.data_i32(0x1234_5678),
                (1, _) => jit.const_i32(0x1234_5678),
                (2, _) => jit.abs_address(l),
                (_, 2) => jit.data(n),
                (_, _) => jit.constant(n),
            };
            jit.finalize();
            return Some(x);
        }
        Op::Reloc => {
            jit.save_reloc(l, 4);
            jit.finalize();
        }
        Op::Finalize => jit.finalize(),
    }
    None
}

/// Stand-in, used only when the crate itself does not offer the operation any more.
#[allow(dead_code)]
trait Slot {
    fn save_reloc(&mut self, l: DestLabel, n: u8);
}

impl Slot for JitMemory {
    fn save_reloc(&mut self, _: DestLabel, n: u8) {
        assert!(self.get_current() + n as usize <= P);
    }
}

fn up(x: usize, n: usize) -> usize {
    (x + n - 1) / n * n
}

/// where the position must be afterwards, and the expected bytes at the old position
fn expect(op: Op, pos: usize, meter: &mut JitMemory, ml: DestLabel) -> (usize, Option<Vec<u8>>) {
    match op {
        Op::B => (pos + 1, Some(vec![0x5a])),
        Op::W => (pos + 2, Some(0x5a5bu16.to_le_bytes().to_vec())),
        Op::L => (pos + 4, Some(0x5a5b5c5du32.to_le_bytes().to_vec())),
        Op::Q => (pos + 8, Some(0x5a5b5c5d_5e5f6061u64.to_le_bytes().to_vec())),
        Op::Slice(n) => (pos + n, Some(vec![0x77; n])),
        Op::Align(n) => (up(pos, n), None),
        Op::Inst(i) => {
            let a = meter.get_current();
            INSTS[i].1(meter, ml);
            let e = meter.get_current();
            let b = unsafe { std::slice::from_raw_parts((page_base(meter, 0) as usize + a) as *const u8, e - a) }.to_vec();
            (pos + e - a, if INSTS[i].0.contains(" l") { None } else { Some(b) })
        }
        Op::Item(0, _) => (up(pos, 16) + 8, None),
        Op::Item(1, _) => (up(pos, 4) + 4, None),
        Op::Item(2, _) => (up(pos, 8) + 8, None),
        Op::Item(_, n) => (up(pos, 16).saturating_add(n), None),
        Op::Reloc => (pos, None),
        Op::Finalize => (pos, None),
    }
}

fn experiment(out: &Pipe, jit: &mut JitMemory, b: &[u64; 3], p: usize, r: usize, op: Op, l: DestLabel, meter: &mut JitMemory, ml: DestLabel) {
    // fill up to the wanted distance
    for i in 0..TAIL - r {
        jit[Page(p)].emitb(i as u8 | 1);
    }
    let pos = position(jit, p);
    if pos != P - r {
        out.say("C10: page not filled to its capacity", &format!("position {:#x} after filling, expected {:#x}", pos, P - r));
        return;
    }
    let w = windows(b);
    let (end, bytes) = expect(op, pos, meter, ml);
    let fits = end <= P && !(matches!(op, Op::Reloc) && r < 4);
    let res = caught(|| act(jit, p, op, l));
    let own = [(p, pos, P)];
    let key = |k: &str| format!("C10: {}", k);
    match (&res, fits) {
        (Err(m), true) => {
            out.say(&key("panic although the content fits"), &format!("{:?} needs {} of {} bytes: {}", op, end - pos, r, m));
            return;
        }
        (Ok(_), false) => out.say(&key("overflow did not panic"), &format!("{:?} needs {} bytes, {} left", op, end - pos, r)),
        (Ok(_), true) => {
            out.say("+accepted", "");
            let now = position(jit, p);
            if now != end {
                let d = format!("{:?}: position {:#x}, expected {:#x}", op, now, end);
                out.say(&key("position near the end of a page"), &d);
                out.say("C08: position near the end of a page", &d);
            }
            if let Some(x) = &bytes {
                let m = unsafe { std::slice::from_raw_parts((b[p] as usize + pos) as *const u8, x.len()) };
                if m != &x[..] {
                    let d = format!("{:?}: {:02x?}, expected {:02x?}", op, m, x);
                    out.say(&key("bytes near the end of a page"), &d);
                    out.say("C08: bytes near the end of a page", &d);
                }
            }
        }
        (Err(_), false) => out.say("+refused", ""),
    }
    if let Err(e) = intact(&w, b, &own) {
        out.say(&key("wrote outside the page"), &format!("{:?} with {} bytes left: {}", op, r, e));
        return;
    }
    if let (Ok(Some(x)), Op::Item(k, n), true) = (&res, op, fits) {
        let x = *x;
        let a = jit.get_label_u64(x);
        let want: Vec<u8> = match k {
            0 => 0x1234_5678_9abc_def0u64.to_le_bytes().to_vec(),
            1 => 0x1234_5678u32.to_le_bytes().to_vec(),
            2 => jit.get_label_u64(l).to_le_bytes().to_vec(),
            _ => vec![0; n],
        };
        let lo = b[p] + pos as u64;
        let ok = a >= lo && a + want.len() as u64 <= b[p] + PAGE && unsafe { std::slice::from_raw_parts(a as *const u8, want.len()) } == &want[..];
        if !ok {
            let d = format!("{:?} at {:#x} (page at {:#x}, {} left)", op, a, b[p], r);
            out.say(&key("item near the end of a page"), &d);
            out.say("C07: item near the end of a page", &d);
        }
    }
    // keep going after the refusal / at the end
    let more: &[Op] = &[Op::B, Op::Q, Op::L, Op::Slice(64), Op::Finalize, Op::W, Op::Align(16), Op::Item(3, 40), Op::B, Op::Finalize, Op::Item(0, 0), Op::Reloc];
    for (k, o) in more.iter().enumerate() {
        if p == 2 && matches!(o, Op::Reloc) {
            continue;
        }
        let before = position(jit, p);
        let w2 = windows(b);
        let res = caught(|| act(jit, p, *o, l));
        let fin = matches!(o, Op::Finalize | Op::Item(..) | Op::Reloc);
        // finalization may fill label fields emitted since the beginning of the experiment
        let own2 = [(p, if fin { pos } else { before.min(P) }, P)];
        if let Err(e) = intact(&w2, b, &own2).and_then(|_| intact(&w, b, &own)) {
            out.say(&key("wrote outside the page"), &format!("{:?}, {} bytes left, then {:?} (step {}): {}", op, r, o, k, e));
            return;
        }
        let now = position(jit, p);
        if now > P || now < before {
            out.say(&key("position outside the page"), &format!("{:?}, {} bytes left, then {:?}: position {:#x} -> {:#x}", op, r, o, before, now));
            return;
        }
        if res.is_ok() && matches!(o, Op::B | Op::W | Op::L | Op::Q) {
            let n = match o {
                Op::B => 1,
                Op::W => 2,
                Op::L => 4,
                _ => 8,
            };
            if before + n > P {
                out.say(&key("overflow did not panic"), &format!("{:?}, {} bytes left, then {:?} at {:#x}", op, r, o, before));
                return;
            }
        }
    }
}

pub fn run(rep: &mut Report, seed: u64, part: u64, parts: u64, scale: u64) {
    let mut rng = Rng::sub(seed, 0xCA9 + part);
    let p = (part % 3) as usize;
    let (slice, slices) = (part / 3, parts.div_ceil(3));
    let mut meter = new_jit();
    let ml = meter.label();
    meter.bind_label(ml);
    let mut jit = new_jit();
    let b = [page_base(&jit, 0), page_base(&jit, 1), page_base(&jit, 2)];
    for q in 0..3usize {
        for o in [0, P - WIN] {
            for i in 0..WIN {
                unsafe { ((b[q] as usize + o + i) as *mut u8).write((hash((seed, q, o, i / 8)) >> (8 * (i % 8))) as u8) };
            }
        }
    }
    // a bound label at the beginning of page 0 (one byte in)
    jit.emit(&[0x90]);
    let l = jit.label();
    jit.bind_label(l);
    let skip = if p == 0 { 1 } else { 0 };
    progress(0, 4);
    progress_text("filling a page");
    for _ in skip..(P - TAIL) / 4096 + skip {
        jit[Page(p)].emitb(0x33);
        jit[Page(p)].align_page();
    }
    if p == 0 && position(&mut jit, 0) < P - TAIL {
        jit[Page(0)].emitb(0x33);
        jit[Page(0)].align_page();
    }
    unsafe { libc::madvise((b[p] as usize + 65536) as *mut _, P - 65536 - TAIL - 4096, libc::MADV_DONTNEED) };
    if position(&mut jit, p) != P - TAIL {
        rep.violate("C10: page not filled to its capacity", format!("page {} is at {:#x} instead of {:#x}", p, position(&mut jit, p), P - TAIL));
        return;
    }
    rep.add("pages_filled", 1);
    if p < 2 {
        jit.select_page(p);
    }
    let mut rs: Vec<usize> = (0..=20).chain([24, 31, 32, 33, 40, 47, 48, 63, 64]).collect();
    for _ in 0..4 * scale {
        rs.push(rng.below(200) as usize);
    }
    let mut k = 0u64;
    for op in ops() {
        if p == 2 && matches!(op, Op::Inst(_) | Op::Reloc | Op::Item(2, _)) {
            continue;
        }
        for r in &rs {
            k += 1;
            if k % slices != slice {
                continue;
            }
            // quick tier: a third of the wide rows
            if scale < 4 && !matches!(op, Op::B | Op::W | Op::L | Op::Q | Op::Reloc) && *r > 20 && rng.chance(2, 3) {
                continue;
            }
            let name = if let Op::Inst(i) = op { INSTS[i].0.to_string() } else { format!("{:?}", op) };
            let what = format!("page {} with {} bytes left: {}", p, r, name);
            rep.distinct.insert(hash(&what));
            if k % 97 == 0 {
                rep.sample(what.clone());
            }
            forked(rep, &what, |out| experiment(out, &mut jit, &b, p, *r, op, l, &mut meter, ml));
        }
    }
    // random storms close to the end of the page
    for k in 0..20 * scale {
        let s = rng.next();
        forked(rep, &format!("storm {} on page {}", k, p), |out| storm(out, &mut jit, &b, p, s, l));
        rep.distinct.insert(hash(("storm", p, s)));
    }
    if slice == 0 {
        indexing(rep, &mut jit, &b);
        whole(rep, p);
    }
}

/// Random calls near the end: nothing but the tail of the page concerned may change.
fn storm(out: &Pipe, jit: &mut JitMemory, b: &[u64; 3], p: usize, seed: u64, l: DestLabel) {
    let mut r = Rng::new(seed);
    let all = ops();
    let lead = TAIL - r.below(160) as usize;
    for i in 0..lead {
        jit[Page(p)].emitb(i as u8);
    }
    let w = windows(b);
    let start = position(jit, p);
    let mut tr = vec![];
    for _ in 0..r.range(10, 60) {
        let op = *r.pick(&all);
        if p == 2 && matches!(op, Op::Inst(_) | Op::Reloc | Op::Item(2, _)) {
            continue;
        }
        tr.push(op);
        let x = if r.chance(1, 3) { jit.label() } else { l };
        let _ = caught(|| act(jit, p, op, x));
        if r.chance(1, 6) {
            jit[Page(p)].align4();
        }
        let now = position(jit, p);
        if now > P {
            out.say("C10: position outside the page", &format!("{:?}: {:#x}", tr, now));
            return;
        }
        if let Err(e) = intact(&w, b, &[(p, start, P)]) {
            out.say("C10: wrote outside the page", &format!("{:?} from {:#x}: {}", tr, start, e));
            return;
        }
    }
}

/// Direct access by position.
fn indexing(rep: &mut Report, jit: &mut JitMemory, b: &[u64; 3]) {
    let bad: Vec<usize> = vec![P, P + 1, P + 4095, 2 * P - 1, 2 * P, 3 * P - 1, 3 * P, 4 * P, 1 << 32, (1 << 32) + 5, usize::MAX / 2, usize::MAX - 1, usize::MAX];
    for q in 0..3usize {
        for x in [0usize, 1, 4096, P / 2, P - 2, P - 1] {
            let a = &jit[Page(q)][Pos::from(x)] as *const u8 as u64;
            let c = &mut jit[Page(q)][Pos::from(x)] as *mut u8 as u64;
            rep.add("index_checks", 2);
            if a != b[q] + x as u64 || c != a {
                rep.violate("C10: indexed access", format!("page {} position {:#x} is {:#x}/{:#x}, expected {:#x}", q, x, a, c, b[q] + x as u64));
            }
        }
        for x in &bad {
            let i = caught(|| &jit[Page(q)][Pos::from(*x)] as *const u8 as u64);
            let m = caught(|| &mut jit[Page(q)][Pos::from(*x)] as *mut u8 as u64);
            rep.add("index_checks", 2);
            if i.is_ok() || m.is_ok() {
                rep.violate("C10: indexed access outside a page", format!("page {} position {:#x}: {:x?} {:x?}", q, x, i, m));
            }
        }
    }
    for q in 0..2usize {
        jit.select_page(q);
        for x in &bad {
            let i = caught(|| &jit[Pos::from(*x)] as *const u8 as u64);
            let m = caught(|| &mut jit[Pos::from(*x)] as *mut u8 as u64);
            rep.add("index_checks", 2);
            if i.is_ok() || m.is_ok() {
                rep.violate("C10: indexed access outside a page", format!("selected page {} position {:#x}: {:x?} {:x?}", q, x, i, m));
            }
        }
        for x in [0usize, P - 1] {
            if &jit[Pos::from(x)] as *const u8 as u64 != b[q] + x as u64 {
                rep.violate("C10: indexed access", format!("selected page {} position {:#x}", q, x));
            }
        }
    }
    for x in [3usize, 4, 255, usize::MAX] {
        let l = jit.label();
        if caught(|| jit[Page(x)].emitb(1)).is_ok() || caught(|| jit.bind_label_with_page(Page(x), l)).is_ok() {
            rep.violate("C10: page that does not exist", format!("Page({}) is accepted", x));
        }
        rep.add("index_checks", 1);
    }
    rep.sample("positions and pages outside the memory refused".into());
}

/// One item as large as the whole page, and one byte more.
fn whole(rep: &mut Report, p: usize) {
    for extra in [0usize, 1] {
        forked(rep, &format!("page {}: one item of 256 MiB + {}", p, extra), |out| {
            let mut jit = JitMemory::new();
            let b = [page_base(&jit, 0), page_base(&jit, 1), page_base(&jit, 2)];
            for q in 0..3usize {
                if q != p {
                    for o in [0, P - WIN] {
                        for i in 0..WIN {
                            unsafe { ((b[q] as usize + o + i) as *mut u8).write(0xa7 ^ i as u8) };
                        }
                    }
                }
            }
            unsafe { ((b[p] as usize + P - 1) as *mut u8).write(0xee) };
            let w = windows(&b);
            if p < 2 {
                jit.select_page(p);
            }
            let l = if p == 2 { jit.data(P + extra) } else { jit.constant(P + extra) };
            let res = caught(|| jit.finalize());
            if let Err(e) = intact(&w, &b, &[(p, 0, P)]) {
                out.say("C10: wrote outside the page", &e);
            }
            match (extra, res) {
                (0, Ok(())) => {
                    if jit.get_label_u64(l) != b[p] || unsafe { ((b[p] as usize + P - 1) as *const u8).read() } != 0 {
                        out.say("C10: item near the end of a page", "the item is not the whole page");
                    }
                    out.say("+accepted", "");
                    if caught(|| jit[Page(p)].emitb(1)).is_ok() {
                        out.say("C10: overflow did not panic", "emitb on a full page");
                    }
                    if let Err(e) = intact(&w, &b, &[(p, 0, P)]) {
                        out.say("C10: wrote outside the page", &e);
                    }
                }
                (0, Err(m)) => out.say("C10: panic although the content fits", &m),
                (_, Ok(())) => out.say("C10: overflow did not panic", "an item larger than the page"),
                (_, Err(_)) => out.say("+refused", ""),
            }
        });
    }
}
