//! Monitor of operand expressions: the same instruction written with plain operands and with arbitrary Rust
//! expressions of the same value must emit the same bytes; instrumented expressions count their evaluations.
use crate::diff::release;
use crate::rng::Rng;
use crate::tm::*;
use crate::util::*;
use monoasm::*;
use std::cell::Cell;

#[derive(Default)]
pub struct Log([Cell<u32>; 8]);

impl Log {
    pub fn r(&self, k: usize, v: u64) -> u64 {
        self.0[k].set(self.0[k].get() + 1);
        v
    }
    pub fn i(&self, k: usize, v: i64) -> i64 {
        self.0[k].set(self.0[k].get() + 1);
        v
    }
}

pub struct Ev {
    pub class: &'static str,
    pub name: &'static str,
    pub mem: Mem,
    pub imm: ImmK,
    /// operand slots the expressions stand in: a=1 b=2 m=4 x=8 d=16 i=32 c=64
    pub slots: u32,
    pub counted: bool,
    pub plain: fn(&mut JitMemory, &Ops),
    pub emit: fn(&mut JitMemory, &Ops, &Log),
}

const SLOT: [&str; 7] = ["first register", "second register", "base register", "index register", "displacement", "immediate", "shift count register"];

fn operands(r: &mut Rng, e: &Ev) -> Ops {
    let mut o = Ops::zero();
    o.a = r.below(16);
    o.b = r.below(16);
    o.m = r.below(16);
    o.x = *r.pick(&[0, 1, 2, 3, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15]);
    if e.imm == ImmK::Small {
        o.d = r.below(101) as i64;
        o.i = r.below(101) as i64;
        return o;
    }
    // away from the ends of the range, so that the expressions do not overflow themselves
    o.d = match r.below(4) {
        0 => r.range(-140, 140),
        1 => r.range(-40000, 40000),
        2 => 0,
        _ => r.range(-(1 << 31) + 64, (1 << 31) - 64),
    };
    o.i = loop {
        let v = crate::diff::rnd_imm(r, e.imm);
        let v = v.clamp(i64::MIN + 64, i64::MAX - 64);
        let t = match e.imm {
            ImmK::S8 | ImmK::Sh | ImmK::U8 | ImmK::S16 => true,
            ImmK::S32 | ImmK::S32x => v > i32::MIN as i64 + 64 && v < i32::MAX as i64 - 64,
            _ => true,
        };
        if t {
            break v;
        }
    };
    o
}

pub fn run(rep: &mut Report, es: &[&'static Ev], seed: u64, part: u64, parts: u64, scale: u64) {
    let mut r = Rng::sub(seed, 0xE7A1 + part);
    let mut jit = JitMemory::new();
    let mut n = 0u64;
    for (k, e) in es.iter().enumerate() {
        if k as u64 % parts != part {
            continue;
        }
        rep.add("expressions_covered", 1);
        for _ in 0..scale * 6 {
            if jit.get_current() > 100 << 20 {
                release(&mut jit);
                jit = JitMemory::new();
            }
            let mut o = operands(&mut r, e);
            let what = format!("{} | {} | a={} b={} base={} index={} disp={} imm={}", e.class, e.name, o.a, o.b, o.m, o.x, o.d, o.i);
            n += 1;
            progress(n, 1);
            progress_text(&what);
            o.l = jit.label();
            let p0 = jit.get_current();
            let res = caught(|| (e.plain)(&mut jit, &o));
            if res.is_err() {
                // plain operands refused: nothing to compare with (C11 / C04 decide that)
                rep.add("plain_refused", 1);
                continue;
            }
            let p1 = jit.get_current();
            let log = Log::default();
            o.l = jit.label();
            let res = caught(|| (e.emit)(&mut jit, &o, &log));
            let p2 = jit.get_current();
            rep.add("cases", 1);
            rep.add(&format!("class: {}", e.class), 1);
            if let Err(m) = res {
                rep.violate(&format!("C13: refused with expressions: {}", e.class), format!("{}: {}", what, m));
                continue;
            }
            let all = unsafe { std::slice::from_raw_parts(&jit[Page(0)][Pos::from(0)] as *const u8, p2) };
            let (a, b) = (&all[p0..p1], &all[p1..p2]);
            if a != b {
                rep.violate(
                    &format!("C13: other code than for the plain value: {}", e.class),
                    format!("{}: plain {:02x?}, expression {:02x?}", what, a, b),
                );
            }
            if e.counted {
                for s in 0..7 {
                    if e.slots >> s & 1 == 1 {
                        let c = log.0[s].get();
                        rep.add("evaluations_counted", c as u64);
                        if c != 1 {
                            rep.violate(&format!("C13: {} expression evaluated {} times", SLOT[s], c), what.clone());
                        }
                    }
                }
            }
            rep.distinct.insert(hash((e.class, e.name, b)));
            if n % 4001 == 7 {
                rep.sample(format!("{} -> {:02x?}", what, b));
            }
        }
    }
    release(&mut jit);
}

pub fn main_with(es: Vec<&'static Ev>) {
    let a = Args::parse();
    install_panic_hook();
    progress_init(a.s("progress"));
    hashes_init(a.s("hashes"));
    let mut rep = Report::default();
    run(&mut rep, &es, a.u("seed", 1), a.u("part", 0), a.u("parts", 1), a.u("scale", 1));
    rep.finish(a.s("hashes"));
}
