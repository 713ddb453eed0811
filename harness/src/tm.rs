//! Instruction templates: one per (mnemonic, operand shape), operands chosen at run time
//! (or fixed, for templates written with literal operands).
use monoasm::*;

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Ops {
    pub a: u64, // first register operand
    pub b: u64, // second register operand
    pub m: u64, // base register of the memory operand
    pub x: u64, // index register
    pub d: i64, // displacement as written (before a leading minus sign is applied)
    pub i: i64, // immediate
    pub c: u64, // shift count register
    pub l: DestLabel,
}

impl Ops {
    pub fn zero() -> Self {
        Ops { a: 0, b: 0, m: 0, x: 1, d: 0, i: 0, c: 1, l: DestLabel::default() }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Mem {
    None,
    /// [base]
    B,
    /// [base + d]
    Bp,
    /// [base - d]
    Bm,
    /// [base + index*scale]
    X,
    /// [base + index*scale + d]
    Xp,
    /// [base + index*scale - d]
    Xm,
    /// [rip + label]
    Rip,
    /// [rip + number]
    RipNum,
    /// [rip - number]
    RipNumM,
}

impl Mem {
    pub fn has_index(self) -> bool {
        matches!(self, Mem::X | Mem::Xp | Mem::Xm)
    }
    pub fn has_disp(self) -> bool {
        matches!(self, Mem::Bp | Mem::Bm | Mem::Xp | Mem::Xm)
    }
    pub fn has_base(self) -> bool {
        self.has_disp() || matches!(self, Mem::B | Mem::X)
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum ImmK {
    None,
    /// sign-extended 8-bit immediate on an 8-bit operation
    S8,
    S16,
    S32,
    /// 32-bit immediate sign-extended to a 64-bit operand
    S32x,
    S64,
    /// shift count
    Sh,
    /// 0..=100 (fits every integer type)
    Small,
    /// unsigned byte (u8 typed)
    U8,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Hint {
    None,
    /// uses rdx:rax as dividend; width
    Div(u8, bool),
    Cl,
    /// uses the stack
    Stack,
    Leave,
    /// address valued result
    Lea,
}

pub struct Tmpl {
    pub name: &'static str,
    /// instruction as GNU as (Intel syntax) with $-placeholders
    pub gas: &'static str,
    /// "int", "sse", "stack", "cond"
    pub fam: &'static str,
    pub mem: Mem,
    pub scale: u8,
    /// required alignment of the memory operand
    pub malign: u64,
    pub imm: ImmK,
    /// operand kinds: a/b general, A/B xmm
    pub slots: &'static str,
    /// flags compared
    pub fmask: u64,
    pub hint: Hint,
    /// operands are literal in the source text
    pub lit: Option<Ops>,
    pub emit: fn(&mut JitMemory, &Ops),
}

pub const Q: [&str; 16] = [
    "rax", "rcx", "rdx", "rbx", "rsp", "rbp", "rsi", "rdi", "r8", "r9", "r10", "r11", "r12", "r13", "r14", "r15",
];
pub const D: [&str; 16] = [
    "eax", "ecx", "edx", "ebx", "esp", "ebp", "esi", "edi", "r8d", "r9d", "r10d", "r11d", "r12d", "r13d", "r14d",
    "r15d",
];
pub const W: [&str; 16] = [
    "ax", "cx", "dx", "bx", "sp", "bp", "si", "di", "r8w", "r9w", "r10w", "r11w", "r12w", "r13w", "r14w", "r15w",
];
pub const B: [&str; 16] = [
    "al", "cl", "dl", "bl", "spl", "bpl", "sil", "dil", "r8b", "r9b", "r10b", "r11b", "r12b", "r13b", "r14b", "r15b",
];

pub fn reg(n: u64, w: u8) -> &'static str {
    let n = n as usize;
    match w {
        8 => Q[n],
        4 => D[n],
        2 => W[n],
        _ => B[n],
    }
}

impl Tmpl {
    /// effective signed displacement
    pub fn disp(&self, o: &Ops) -> i64 {
        match self.mem {
            Mem::Bp | Mem::Xp | Mem::RipNum => o.d,
            Mem::Bm | Mem::Xm | Mem::RipNumM => o.d.wrapping_neg(),
            _ => 0,
        }
    }

    /// The value the instruction must use, if this immediate can be meant at all.
    /// Returns (must_accept, may_accept).
    pub fn imm_rule(&self, v: i64) -> (bool, bool) {
        let fit = |lo: i64, hi: i64| v >= lo && v <= hi;
        match self.imm {
            ImmK::None | ImmK::S64 => (true, true),
            ImmK::S8 => (fit(-128, 127), fit(-128, 255)),
            ImmK::Sh => (fit(0, 127), fit(-128, 255)),
            ImmK::S16 => (fit(-32768, 32767), fit(-32768, 65535)),
            ImmK::S32 => (fit(i32::MIN as i64, i32::MAX as i64), fit(i32::MIN as i64, u32::MAX as i64)),
            ImmK::S32x => {
                let f = fit(i32::MIN as i64, i32::MAX as i64);
                (f, f)
            }
            ImmK::U8 => (fit(0, 255), fit(0, 255)),
            ImmK::Small => (fit(0, 100), fit(0, 100)),
        }
    }

    /// Flags that are defined after this instruction: a shift by 0 leaves all alone, one by 1 defines OF.
    pub fn flags_at(&self, o: &Ops, rcx: u64) -> u64 {
        let n = match (self.imm, self.hint) {
            (ImmK::Sh, _) => o.i as u64,
            (_, Hint::Cl) => rcx,
            _ => return self.fmask,
        };
        let wide = self.gas.contains("$a8") || self.gas.contains("$m8");
        match n & if wide { 63 } else { 31 } {
            0 => 0x8d5,
            1 => self.fmask | 0x800,
            _ => self.fmask,
        }
    }

    /// value as printed for the reference assembler
    pub fn imm_text(&self, v: i64) -> String {
        match self.imm {
            ImmK::S8 => format!("{}", v as i8),
            ImmK::S16 => format!("{}", v as i16),
            ImmK::S32 => format!("{}", v as i32),
            ImmK::Sh | ImmK::U8 => format!("{}", v as u8),
            _ => format!("{}", v),
        }
    }

    /// Reference text; `cell` is the symbol of the rip-relative cell.
    pub fn text(&self, o: &Ops, cell: &str) -> String {
        let addr = match self.mem {
            Mem::None => String::new(),
            Mem::Rip => format!("[rip+{}]", cell),
            Mem::RipNum | Mem::RipNumM => format!("[rip+{}]", cell),
            _ => {
                let mut s = format!("[{}", Q[o.m as usize]);
                if self.mem.has_index() {
                    s += &format!("+{}*{}", Q[o.x as usize], self.scale);
                }
                let d = self.disp(o);
                if d != 0 {
                    s += &format!("{:+}", d);
                }
                s + "]"
            }
        };
        let mut out = String::new();
        let cs: Vec<char> = self.gas.chars().collect();
        let mut k = 0;
        while k < cs.len() {
            if cs[k] != '$' {
                out.push(cs[k]);
                k += 1;
                continue;
            }
            let c = cs[k + 1];
            k += 2;
            match c {
                'a' | 'b' => {
                    let w = cs[k].to_digit(10).unwrap() as u8;
                    k += 1;
                    out += reg(if c == 'a' { o.a } else { o.b }, w);
                }
                'A' => out += &format!("xmm{}", o.a),
                'B' => out += &format!("xmm{}", o.b),
                'i' => out += &self.imm_text(o.i),
                'm' => {
                    let w = cs[k];
                    k += 1;
                    out += match w {
                        '8' => "qword ptr ",
                        '4' => "dword ptr ",
                        '2' => "word ptr ",
                        '1' => "byte ptr ",
                        'x' => "xmmword ptr ",
                        _ => "",
                    };
                    out += &addr;
                }
                _ => panic!("bad placeholder"),
            }
        }
        out
    }

    pub fn describe(&self, o: &Ops) -> String {
        format!(
            "{} | a={} b={} base={} index={} disp={} imm={:#x} | meant: {}",
            self.name,
            o.a,
            o.b,
            o.m,
            o.x,
            o.d,
            o.i,
            if self.imm_rule(o.i).1 { self.text(o, "cell") } else { "-".into() }
        )
    }
}
