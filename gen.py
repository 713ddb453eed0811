#!/usr/bin/env python3
"""Generates the Rust instruction templates (dynamic operands and literal operands)."""
import random, sys, os

CONDS = dict(o="o", no="no", b="b", c="c", nae="nae", ae="ae", nc="nc", eq="e", e="e", z="z", ne="ne", nz="nz",
             be="be", na="na", a="a", nbe="nbe", s="s", ns="ns", p="p", pe="pe", np="np", po="po", lt="l", l="l",
             nge="nge", ge="ge", nl="nl", le="le", ng="ng", gt="g", g="g", nle="nle")
JCONDS = [c for c in CONDS if c not in ("l", "g")]
ALL = 0x8d5
AF = 0x10
NOAF = ALL & ~AF
SZ = dict(q=8, l=4, w=2, b=1)
QN = ["rax", "rcx", "rdx", "rbx", "rsp", "rbp", "rsi", "rdi"] + ["r%d" % i for i in range(8, 16)]

MEMS = [("B", 0), ("Bp", 0), ("Bm", 0)] + [(k, s) for k in ("X", "Xp", "Xm") for s in (1, 2, 4, 8)] + [("Rip", 0)]


class Form:
    """A mnemonic with operand kinds.  ops: list of 'a','b' (gpr), 'A','B' (xmm), 'm', 'i', or literal text."""

    def __init__(self, mono, ops, gas, fam="int", imm="None", fmask=ALL, hint="None", malign=1, core=False, cond=None):
        self.mono, self.ops, self.gas, self.fam, self.imm = mono, ops, gas, fam, imm
        self.fmask, self.hint, self.malign, self.core, self.cond = fmask, hint, malign, core, cond

    @property
    def has_mem(self):
        return "m" in self.ops


def forms():
    F = []

    def add(*a, **k):
        F.append(Form(*a, **k))

    # mov
    for s, w in SZ.items():
        im = {"q": "S64", "l": "S32", "w": "S16", "b": "S8"}[s]
        imm_m = {"q": "S32x", "l": "S32", "w": "S16", "b": "S8"}[s]
        add("mov" + s, ["a", "b"], f"mov $a{w}, $b{w}")
        add("mov" + s, ["a", "i"], ("movabs $a8, $i" if s == "q" else f"mov $a{w}, $i"), imm=im)
        add("mov" + s, ["m", "b"], f"mov $m{w}, $b{w}", core=True)
        add("mov" + s, ["a", "m"], f"mov $a{w}, $m{w}", core=True)
        add("mov" + s, ["m", "i"], f"mov $m{w}, $i", imm=imm_m, core=True)
    add("movq", ["a", "qword i"], "movabs $a8, $i", imm="S64")
    for mn, g, w in (("movsxl", "movsxd", 4), ("movzxw", "movzx", 2), ("movsxw", "movsx", 2), ("movzxb", "movzx", 1),
                     ("movsxb", "movsx", 1)):
        add(mn, ["a", "b"], f"{g} $a8, $b{w}")
        add(mn, ["a", "m"], f"{g} $a8, $m{w}")
    for n in ("add", "or", "adc", "sbb", "and", "sub", "xor", "cmp"):
        fm = NOAF if n in ("or", "and", "xor") else ALL
        for s, w in SZ.items():
            im = {"q": "S32x", "l": "S32", "w": "S16", "b": "S8"}[s]
            add(n + s, ["a", "b"], f"{n} $a{w}, $b{w}", fmask=fm)
            add(n + s, ["a", "i"], f"{n} $a{w}, $i", imm=im, fmask=fm)
            add(n + s, ["m", "b"], f"{n} $m{w}, $b{w}", fmask=fm)
            add(n + s, ["a", "m"], f"{n} $a{w}, $m{w}", fmask=fm)
            add(n + s, ["m", "i"], f"{n} $m{w}, $i", imm=im, fmask=fm, core=(n in ("add", "cmp")))
    for s, w in SZ.items():
        add("xchg" + s, ["a", "b"], f"xchg $a{w}, $b{w}")
        add("xchg" + s, ["m", "b"], f"xchg $m{w}, $b{w}")
        add("xchg" + s, ["a", "m"], f"xchg $a{w}, $m{w}")
    add("negq", ["a"], "neg $a8")
    add("negq", ["m"], "neg $m8")
    MUL = 0x801  # CF OF
    add("imul", ["a", "b"], "imul $a8, $b8", fmask=MUL)
    add("imul", ["a", "m"], "imul $a8, $m8", fmask=MUL)
    for mn, g, w, sg in (("idiv", "idiv", 8, 1), ("idivq", "idiv", 8, 1), ("idivl", "idiv", 4, 1), ("div", "div", 8, 0),
                         ("divq", "div", 8, 0), ("divl", "div", 4, 0)):
        h = f"Div({w}, {'true' if sg else 'false'})"
        add(mn, ["a"], f"{g} $a{w}", fmask=0, hint=h)
        add(mn, ["m"], f"{g} $m{w}", fmask=0, hint=h)
    for s in "qb":
        w = SZ[s]
        im = "S32x" if s == "q" else "S8"
        add("test" + s, ["a", "b"], f"test $a{w}, $b{w}", fmask=NOAF)
        add("test" + s, ["m", "b"], f"test $m{w}, $b{w}", fmask=NOAF)
        add("test" + s, ["a", "i"], f"test $a{w}, $i", fmask=NOAF, imm=im)
        add("test" + s, ["m", "i"], f"test $m{w}, $i", fmask=NOAF, imm=im)
    add("lea", ["a", "m"], "lea $a8, $m0", hint="Lea", core=True)
    add("cqo", [], "cqo")
    add("cdq", [], "cdq")
    for n in ("shl", "shr", "sal", "sar", "rol", "ror"):
        for s in "ql":
            w = SZ[s]
            # OF is undefined for counts other than 1, AF undefined: same CPU, but encodings may differ
            fm = 0xc5 if n[0] == "s" else 0xd5
            add(n + s, ["a", "i"], f"{n} $a{w}, $i", imm="Sh", fmask=fm)
            add(n + s, ["m", "i"], f"{n} $m{w}, $i", imm="Sh", fmask=fm)
            add(n + s, ["a", "cl"], f"{n} $a{w}, cl", hint="Cl", fmask=fm)
            add(n + s, ["m", "cl"], f"{n} $m{w}, cl", hint="Cl", fmask=fm)
            add(n + s, ["a", "1"], f"{n} $a{w}, 1", fmask=fm | 0x800)
            add(n + s, ["m", "1"], f"{n} $m{w}, 1", fmask=fm | 0x800)
    for c, g in CONDS.items():
        add("set" + c, ["a"], f"set{g} $a1", fam="cond", cond=c)
        add("set" + c, ["m"], f"set{g} $m1", fam="cond", cond=c)
        for s in "qlw":
            w = SZ[s]
            add("cmov" + c + s, ["a", "b"], f"cmov{g} $a{w}, $b{w}", fam="cond", cond=c)
            add("cmov" + c + s, ["a", "m"], f"cmov{g} $a{w}, $m{w}", fam="cond", cond=c)
    for n in ("lzcnt", "tzcnt", "popcnt"):
        fm = ALL if n == "popcnt" else 0x41
        for s in "ql":
            w = SZ[s]
            add(n + s, ["a", "b"], f"{n} $a{w}, $b{w}", fmask=fm)
            add(n + s, ["a", "m"], f"{n} $a{w}, $m{w}", fmask=fm)
    add("pushq", ["a"], "push $a8", fam="stack", hint="Stack")
    add("pushq", ["m"], "push $m8", fam="stack", hint="Stack")
    add("popq", ["a"], "pop $a8", fam="stack", hint="Stack")
    add("popq", ["m"], "pop $m8", fam="stack", hint="Stack")
    add("leave", [], "leave", fam="stack", hint="Leave")
    # SSE
    add("movq", ["A", "b"], "movq $A, $b8", fam="sse")
    add("movq", ["a", "B"], "movq $a8, $B", fam="sse")
    add("movq", ["A", "B"], "movq $A, $B", fam="sse")
    add("movq", ["A", "m"], "movq $A, $m8", fam="sse")
    add("movq", ["m", "B"], "movq $m8, $B", fam="sse")
    add("movsd", ["A", "B"], "movsd $A, $B", fam="sse")
    add("movsd", ["A", "m"], "movsd $A, $m8", fam="sse", core=True)
    add("movsd", ["m", "B"], "movsd $m8, $B", fam="sse", core=True)
    for n in ("addsd", "subsd", "mulsd", "divsd", "minsd", "maxsd", "ucomisd", "sqrtsd"):
        add(n, ["A", "B"], f"{n} $A, $B", fam="sse")
        add(n, ["A", "m"], f"{n} $A, $m8", fam="sse")
    for n in ("xorps", "andpd", "xorpd", "sqrtpd"):
        add(n, ["A", "B"], f"{n} $A, $B", fam="sse")
        add(n, ["A", "m"], f"{n} $A, $mx", fam="sse", malign=16)
    add("roundpd", ["A", "B", "i"], "roundpd $A, $B, $i", fam="sse", imm="U8")
    add("roundpd", ["A", "m", "i"], "roundpd $A, $mx, $i", fam="sse", imm="U8", malign=16)
    add("cvtsi2sdq", ["A", "b"], "cvtsi2sd $A, $b8", fam="sse")
    add("cvtsi2sdq", ["A", "m"], "cvtsi2sd $A, $m8", fam="sse")
    add("cvttsd2siq", ["a", "B"], "cvttsd2si $a8, $B", fam="sse")
    add("cvttsd2siq", ["a", "m"], "cvttsd2si $a8, $m8", fam="sse")
    return F


def mem_dyn(kind, s):
    return {"B": "[R(o.m)]", "Bp": "[R(o.m) + (o.d)]", "Bm": "[R(o.m) - (o.d)]", "X": f"[R(o.m) + R(o.x) * {s}]",
            "Xp": f"[R(o.m) + R(o.x) * {s} + (o.d)]", "Xm": f"[R(o.m) + R(o.x) * {s} - (o.d)]", "Rip": "[rip + l]"}[kind]


def op_dyn(f, op, mem):
    if op == "m":
        return mem
    if op in ("a", "b"):
        return f"R(o.{op})"
    if op in ("A", "B"):
        return f"xmm(o.{op.lower()})"
    if op == "i":
        return "(o.i as u8)" if f.imm == "U8" else "(o.i)"
    if op == "qword i":
        return "qword (o.i)"
    return op


def rs_tmpl(name, f, kind, scale, lit, body):
    slots = "".join(o for o in f.ops if o in ("a", "b", "A", "B"))
    return (f'Tmpl {{ name: {rs_str(name)}, gas: {rs_str(f.gas)}, fam: "{f.fam}", mem: Mem::{kind}, scale: {scale}, '
            f'malign: {f.malign}, imm: ImmK::{f.imm}, slots: "{slots}", fmask: {f.fmask:#x}, hint: Hint::{f.hint}, '
            f'lit: {lit}, emit: {body} }},\n')


def rs_str(s):
    return '"' + s.replace("\\", "\\\\").replace('"', '\\"') + '"'


def line(f, ops):
    return f.mono + (" " + ", ".join(ops) if ops else "") + ";"


def dynamic():
    """All forms with run-time operands."""
    out = []
    for n, f in enumerate(forms()):
        if f.has_mem:
            if f.core:
                kinds = MEMS
            elif f.fam == "cond" and f.cond not in ("o", "b", "e", "le", "gt"):
                kinds = [[("Bp", 0), ("Xp", (1, 2, 4, 8)[(n // 2) % 4]), ("Rip", 0)][n % 3]]
            else:
                kinds = [("Bp", 0), ("Xp", (1, 2, 4, 8)[n % 4]), ("Xm", (8, 1, 2, 4)[n % 4]), ("Rip", 0)]
                if n % 3 == 0:
                    kinds.append(("Bm", 0))
        else:
            kinds = [("None", 0)]
        for kind, s in kinds:
            mem = None if kind == "None" else mem_dyn(kind, s)
            src = line(f, [op_dyn(f, o, mem) for o in f.ops])
            pre = "let l = o.l; " if kind == "Rip" else ""
            out.append(rs_tmpl(src, f, kind, s, "None", f"|jit, o| {{ let _ = o; {pre}monoasm!{{ jit, {src} }} }}"))
    return out


def chunked(out, chunk=120):
    """Split into several functions so that rustc parallelises code generation."""
    parts = [out[i:i + chunk] for i in range(0, len(out), chunk)]
    s = "// generated by gen.py\n"
    for k, p in enumerate(parts):
        s += f"mod t{k} {{ use monharness::tm::*; use monoasm::*; use monoasm_macro::monoasm;\n#[allow(unused_mut,unused_variables,unused_unsafe,unused_parens)]\npub static T: &[Tmpl] = &[\n{''.join(p)}]; }}\n"
    s += "use monharness::tm::Tmpl;\npub fn all() -> Vec<&'static Tmpl> { let mut v: Vec<&'static Tmpl> = vec![];\n"
    for k in range(len(parts)):
        s += f"v.extend(t{k}::T.iter());\n"
    return s + "v }\n"


# ------------------------------------------------------------------ literals
DISPS = [0, 1, 2, 7, 8, 16, 100, 126, 127, 128, 129, 255, 256, 512, 4095, 65535, 0x12345, 0x7ffffffe, 0x7fffffff]
IMMS = {"S8": [0, 1, 2, 16, 100, 126, 127], "S16": [0, 1, 127, 128, 255, 256, 32767],
        "S32": [0, 1, 127, 128, 255, 256, 65535, 0x12345678, 0x7fffffff],
        "S32x": [0, 1, 127, 128, 255, 256, 65535, 0x12345678, 0x7fffffff],
        "S64": [0, 1, 127, 128, 0x7fffffff, 0x80000000, 0xffffffff, 0x100000000, 0x7fffffffffffffff],
        "Sh": [0, 1, 2, 3, 7, 31, 32, 33, 63, 64, 127], "U8": list(range(0, 12))}


# what every form of that kind accepts
MUST = {"S8": (-128, 127), "S16": (-32768, 32767), "S32": (-1 << 31, (1 << 31) - 1), "S32x": (-1 << 31, (1 << 31) - 1), "Sh": (0, 127)}
BEYOND = [128, 129, 200, 255, 256, 257, 300, 32768, 40000, 65535, 65536, 65541, 0x80000000, 0x80000005, 0xfffffffe, 0xffffffff, 0x100000000, 0x100000001, 0x100000005,
          0x10000007f, 0x7fffffffffffffff, -1, -2, -128, -129, -200, -256, -32768, -32769, -65536, -0x80000000, -0x80000001, -0xffffffff, -0x100000000, -0x7fffffffffffffff]
MAY_REFUSE = "/* may be refused */ "


def case_mix(r, s):
    m = r.randrange(6)
    if m == 0:
        return s.upper()
    if m == 1:
        return s.capitalize()
    return s


def lit_int(r, v, types="iu"):
    """spell a non-negative integer literal"""
    if types and r.random() < 0.15:
        # with its type
        fit = [t + n for t in types for n, b in (("8", 8), ("16", 16), ("32", 32), ("64", 64), ("size", 64), ("128", 128)) if v < 1 << (b - (t == "i"))]
        if types == "u8":
            fit = ["u8"]
        return lit_int(r, v, "") + r.choice(["", "_"]) + r.choice(fit)
    m = r.randrange(6)
    if m == 0:
        return hex(v)
    if m == 1:
        return "0b" + bin(v)[2:]
    if m == 2 and v > 9:
        t = str(v)
        return t[0] + "_" + t[1:]
    if m == 3:
        return "0o" + oct(v)[2:]
    return str(v)


def literal(seed, per_form, srcs=None):
    r = random.Random(seed * 7919 + 17)
    out = []
    F = forms()
    k = 0
    for f in F:
        reps = per_form if f.fam != "cond" else max(1, per_form // 3)
        if not f.ops:
            reps = 2
        for j in range(reps):
            k += 1
            o = dict(a=r.randrange(16), b=r.randrange(16), m=r.randrange(16), x=r.choice([i for i in range(16) if i != 4]), d=0, i=0)
            # systematic walk over registers
            if j < 2:
                o["a"] = (k * 5 + j * 8) % 16
                o["b"] = (k * 3 + j * 11 + 1) % 16
                o["m"] = (k * 7 + j * 5) % 16
            kind, s = "None", 0
            mem = ""
            f2 = f
            if f.has_mem:
                kind, s = MEMS[(k * 5 + j) % len(MEMS)] if r.random() < 0.7 else r.choice(MEMS + [("RipNum", 0), ("RipNumM", 0)])
                o["d"] = r.choice(DISPS) if r.random() < 0.7 else r.randrange(0, 1 << r.randrange(1, 32))
                base = case_mix(r, QN[o["m"]])
                idx = case_mix(r, QN[o["x"]])
                if r.random() < 0.12:
                    base = "R(%d)" % o["m"]
                if r.random() < 0.12:
                    idx = "R(%d)" % o["x"]
                d = lit_int(r, o["d"])
                if r.random() < 0.25:
                    d = "(%s)" % d
                sc = f" * {s}" if (s != 1 or r.random() < 0.5) else ""
                neg = None
                if kind in ("Bp", "Xp", "Bm", "Xm") and not d.startswith("(") and r.random() < 0.15:
                    # literal with its own sign
                    o["d"] = -o["d"]
                    d = "-" + d
                if kind in ("RipNum", "RipNumM"):
                    o["d"] = r.choice([32, 48, 64, 100, 127, 128, 129, 160, 500, 1000])
                    d = str(o["d"])
                    if f.malign > 1 or f.hint == "Stack":
                        kind = "Rip"
                mem = {"B": f"[{base}]", "Bp": f"[{base} + {d}]", "Bm": f"[{base} - {d}]", "X": f"[{base} + {idx}{sc}]",
                       "Xp": f"[{base} + {idx}{sc} + {d}]", "Xm": f"[{base} + {idx}{sc} - {d}]", "Rip": f"[{case_mix(r,'rip')} + l]",
                       "RipNum": f"[rip + {d}]", "RipNumM": f"[rip - {d}]"}[kind]
            ops = []
            pre = ""
            for op in f.ops:
                if op == "m":
                    ops.append(mem)
                elif op in ("a", "b"):
                    n = o[op]
                    ops.append("R(%d)" % n if r.random() < 0.1 else case_mix(r, QN[n]))
                    if n == 1 and r.random() < 0.3 and f.mono in ("movb","addb","orb","adcb","sbbb","andb","subb","xorb","cmpb","testb"):
                        ops[-1] = r.choice(["cl", "CL"])
                elif op in ("A", "B"):
                    n = o[op.lower()]
                    ops.append("xmm(%d)" % n if r.random() < 0.15 else "xmm%d" % n)
                elif op in ("i", "qword i"):
                    pool = IMMS[f.imm]
                    v = pool[(k + j) % len(pool)]
                    m = r.randrange(4)
                    if f.imm in MUST and r.random() < 0.25:
                        # beyond what the form has: refused when compiled, when emitted, or meant at the operand width
                        v = r.choice(BEYOND)
                        m = 1 if v < 0 else r.randrange(2) * 2
                        o["i"] = v
                        v = abs(v)
                        if not MUST[f.imm][0] <= o["i"] <= MUST[f.imm][1]:
                            pre = MAY_REFUSE
                        t = lit_int(r, v, "")
                        ops.append(("qword " if op != "i" else "") + ("(-%s)" % t if m == 1 else t if m == 2 else "(%s)" % t))
                        continue
                    t = lit_int(r, v, "u8" if f.imm == "U8" else "i" if m == 1 else "iu")
                    if m == 0 and f.imm not in ("U8",):
                        t = "(%s)" % t
                    elif m == 1 and f.imm not in ("U8", "Sh"):
                        v = -v
                        t = "(-%s)" % t
                    o["i"] = v
                    ops.append(("qword " if op != "i" else "") + t)
                elif op == "cl":
                    ops.append(r.choice(["cl", "rcx", "R(1)", "CL"]))
                else:
                    ops.append(op)
            if f.hint == "Stack" and f.has_mem and o["m"] == 4:
                continue
            src = line(f2, ops)
            if srcs is not None and not pre:
                srcs.append(src)
            lit = "Some(Ops { a: %d, b: %d, m: %d, x: %d, d: %d, i: %d, c: 1, l: LAB0 })" % (o["a"], o["b"], o["m"], o["x"], o["d"], o["i"])
            pre += "let l = o.l; " if kind == "Rip" else ""
            out.append(rs_tmpl(src, f2, kind, s, lit, f"|jit, o| {{ let _ = o; {pre}monoasm!{{ jit, {src} }} }}").replace("LAB0", "LAB0()"))
    return out


LABELS = ["eax", "al", "r8d", "r16", "ax", "r0", "spl", "rax2", "rips", "xmm16", "xmm", "ret", "addq", "movq", "jmp", "dq", "qword", "L1", "_x", "entry", "loop_", "R1",
          "Exit", "cmovzq", "label", "dest", "rip_", "disp", "imm", "pos", "page", "cl_", "not_rax", "a", "o", "s", "lt", "EXIT_LABEL", "r15d", "je", "set", "int3", "syscall"]


ALIASES = [("e", "z"), ("ne", "nz"), ("a", "nbe"), ("ae", "nb"), ("b", "nae"), ("be", "na"), ("g", "nle"), ("ge", "nl"), ("l", "nge"), ("le", "ng"), ("p", "pe"), ("np", "po")]


def ctl_pair(r, lab, plain):
    """a control transfer in an unusual and in the plain spelling"""
    m = r.randrange(4)
    if m == 0:
        pool = [g for g in ALIASES if all(x in JCONDS for x in g)]
        a, b = r.choice(pool)
        return "j%s %s;" % (b, lab), "j%s %s;" % (a, plain)
    mn = r.choice(["jmp", "call"])
    mix = lambda q: r.choice([q, q.upper(), q.capitalize(), "".join(r.choice([c, c.upper()]) for c in q)])
    if m == 1:
        q = r.choice(QN)
        return "%s %s;" % (mn, mix(q)), "%s %s;" % (mn, q)
    b, x = r.choice(QN), r.choice([q for q in QN if q != "rsp"])
    sc, d, sign = r.choice([1, 2, 4, 8]), r.choice(DISPS), r.choice("+-")
    spell = lambda q, n: "R(%d)" % n if r.random() < 0.2 else mix(q)
    dt = lit_int(r, d)
    if r.random() < 0.3:
        dt = "(%s)" % dt
    base = spell(b, QN.index(b))
    if m == 2:
        return "%s [%s %s %s];" % (mn, base, sign, dt), "%s [%s %s %d];" % (mn, b, sign, d)
    st = " * %s" % lit_int(r, sc, "") if sc != 1 or r.random() < 0.5 else ""
    return "%s [%s + %s%s %s %s];" % (mn, base, spell(x, QN.index(x)), st, sign, dt), "%s [%s + %s * %d %s %d];" % (mn, b, x, sc, sign, d)


LONG = [70, 130, 260, 520, 1100, 2100, 5100]


def blocks(seed, count):
    """Whole invocations: statements together and one by one."""
    r = random.Random(seed * 6151 + 5)
    srcs = []
    literal(seed + 77, 2, srcs)
    out = []
    for k in range(count):
        nl = r.randrange(1, 4)
        # a few very long ones
        n = LONG[k] if k < len(LONG) else r.choice([1, 2, 3, 5, 8, 13, 25])
        # labels are named by any variable of the caller
        nm = r.sample(LABELS, nl) if r.random() < 0.6 else ["l%d" % i for i in range(nl)]
        bound = list(range(nl))
        r.shuffle(bound)
        where = sorted(r.randrange(n + 1) for _ in bound)
        stm = []  # (together, alone)
        for j in range(n + 1):
            while where and where[0] == j:
                where.pop(0)
                b = bound.pop()
                stm.append(("%s:" % nm[b], "h.jit.bind_label(l%d);" % b))
            if j == n:
                break
            m = r.randrange(22)
            li = r.randrange(nl)
            lab, plain = nm[li], "l%d" % li
            if m == 0:
                v = r.choice([0, 1, 5, 255, 0x7fffffff, 0xffffffff, 0x100000000, 0x7fffffffffffffff, r.randrange(1 << 63), r.randrange(1 << 20)])
                if r.random() < 0.35:
                    v = r.choice([v, 0x8000000000000000, 128, 0x80000000]) or 1
                    stm.append(("dq -%s;" % lit_int(r, v, "i" if v < 1 << 63 else ""), "h.jit.emitq(%du64);" % (-v & (1 << 64) - 1)))
                else:
                    stm.append(("dq %s;" % lit_int(r, v), "h.jit.emitq(%du64);" % v))
            elif m == 1:
                v = r.choice(["0.0", "1.0", "2.5", "0.1", "1e300", "5e-324", "3.141592653589793", "1_000.25", "9007199254740993.0", "4.0e3", "0.5", "123456789.125",
                              "%d.%d" % (r.randrange(100000), r.randrange(1000)), "16777217.0", "0.3333333333333333"])
                sign = r.choice(["", "", "-"])
                suf = r.choice(["", "", "f64", "_f64"])
                if r.random() < 0.2:
                    # a float only by its type
                    v, suf = r.choice(["0", "1", "5", "1_000", "9007199254740993", str(r.randrange(1 << 40))]), "f64"
                stm.append(("dq %s%s%s;" % (sign, v, suf), "h.jit.emit(&(%s%sf64).to_le_bytes());" % (sign, v)))
            elif m in (2, 3, 4, 5):
                t = r.choice(["jmp %s;", "call %s;", "je %s;", "jae %s;", "jnle %s;", "lea rax, [rip + %s];", "movq r9, [rip + %s];", "cmpw [rip + %s], 300;",
                              "movsd xmm9, [rip + %s];", "addq [rip + %s], 1;", "jmp [rip + %s];", "call [rip + %s];", "jo %s;"])
                stm.append((t % lab, "monoasm!{ &mut h.jit, %s }" % (t % plain)))
            elif m in (6, 7, 8):
                a, b = ctl_pair(r, lab, plain)
                stm.append((a, "monoasm!{ &mut h.jit, %s }" % b))
            else:
                t = r.choice(srcs)
                stm.append((t.replace(" + l]", " + %s]" % lab), "monoasm!{ &mut h.jit, %s }" % t.replace(" + l]", " + %s]" % plain)))
        pre, inst, counted = r.choice([("let jit = &mut h.jit; ", "jit", 0), ("", "&mut h.jit", 0), ("", "h.get()", 1), ("let q = &mut *h; ", "q.get()", 1),
                                       ("let jit = &mut h.jit; ", "&mut *jit", 0), ("", "{ let q = &mut h.jit; q }", 0), ("", "(&mut h.jit)", 0),
                                       ("", "std::convert::identity(&mut h.jit)", 0), ("", "if true { h.get() } else { unreachable!() }", 1),
                                       ("let mut v = vec![&mut h.jit]; ", "&mut v[0]", 0), ("let other = &mut h.jit; ", "other", 0)])
        body = "monoasm!{ %s, %s }" % (inst, " ".join(t for t, _ in stm))
        ctx = r.choice(["%s", "%s", "if true { %s }", "match 0 { _ => %s }", "let () = %s;", "{ %s; }"])
        labs = "".join("let %s = l[%d]; " % (nm[i], i) for i in range(nl))
        plabs = "".join("let l%d = l[%d]; " % (i, i) for i in range(nl))
        name = "monoasm!( %s, %s )" % (inst, " ".join(t for t, _ in stm))
        out.append('Blk { name: %s, counted: %s, fail: false, labels: %d, one: |h, l| { %s%s%s }, sep: |h, l| { %s%s } },\n'
                   % (rs_str(name), "true" if counted else "false", nl, labs, pre, ctx % body, plabs, " ".join(a for _, a in stm)))
    return out


def far_literals(seed, count):
    """literal displacements outside 32 bits: refused when compiled, or when emitted"""
    r = random.Random(seed * 31 + 5)
    mems = [f for f in forms() if f.has_mem]
    out = []
    for _ in range(count):
        f = r.choice(mems)
        v = r.choice([1 << 31, (1 << 31) + r.randrange(1, 300), 0xffffffff, 1 << 32, (1 << 32) + r.randrange(300), r.randrange(1 << 32, 1 << 62), (1 << 63) - 1, 0xfffffff0])
        if r.random() < 0.3:
            v = -v - 1
        t = lit_int(r, abs(v), "") if v > 0 else "-" + lit_int(r, -v, "")
        sign = "+"
        if r.random() < 0.5:
            sign = "-"
            # the sign in front of it turns it round
            t = t[1:] if t[0] == "-" else "-" + t
        k = r.randrange(4)
        base = r.choice(QN)
        mem = ["[%s %s %s]" % (base, sign, t), "[%s + %s * %d %s %s]" % (base, r.choice([q for q in QN if q != "rsp"]), r.choice([1, 2, 4, 8]), sign, t),
               "[rip %s %s]" % (sign, t), "[%s + %s %s %s]" % (base, r.choice([q for q in QN if q != "rsp"]), sign, t)][k]
        ops = []
        for op in f.ops:
            ops.append(mem if op == "m" else r.choice(QN) if op in ("a", "b") else "xmm%d" % r.randrange(16) if op in ("A", "B") else
                       "1" if op == "i" else "qword 1" if op == "qword i" else op)
        src = line(f, ops)
        out.append('Blk { name: %s, counted: false, fail: true, labels: 0, one: |h, _| { %smonoasm!{ &mut h.jit, %s } }, sep: |_, _| {} },\n' % (rs_str(src), MAY_REFUSE, src))
    return out


def blk_chunked(out, chunk=40):
    parts = [out[i:i + chunk] for i in range(0, len(out), chunk)]
    s = "// generated by gen.py\n"
    for k, p in enumerate(parts):
        s += f"mod t{k} {{ use monharness::blk::*; use monoasm::*; use monoasm_macro::monoasm;\n#[allow(unused,clippy::all)]\npub fn t() -> Vec<Blk> {{ vec![\n{''.join(p)}] }} }}\n"
    return s + "pub fn all() -> Vec<monharness::blk::Blk> { let mut v = vec![];\n" + "".join(f"v.extend(t{k}::t());\n" for k in range(len(parts))) + "v }\n"


def lit_chunked(out, chunk=150):
    # DestLabel has no const constructor: use functions returning Vec
    parts = [out[i:i + chunk] for i in range(0, len(out), chunk)]
    s = "// generated by gen.py\n"
    for k, p in enumerate(parts):
        s += f"mod t{k} {{ use monharness::tm::*; use monoasm::*; use monoasm_macro::monoasm;\nfn LAB0() -> DestLabel {{ DestLabel::default() }}\n#[allow(unused_mut,unused_variables,unused_parens)]\npub fn t() -> Vec<Tmpl> {{ vec![\n{''.join(p)}] }} }}\n"
    s += "use monharness::tm::Tmpl;\npub fn all() -> Vec<&'static Tmpl> { let mut v: Vec<&'static Tmpl> = vec![];\n"
    for k in range(len(parts)):
        s += f"for t in t{k}::t() {{ v.push(Box::leak(Box::new(t))); }}\n"
    return s + "v }\n"


def write(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    try:
        if open(path).read() == text:
            return
    except OSError:
        pass
    with open(path, "w") as fh:
        fh.write(text)


if __name__ == "__main__":
    what, path = sys.argv[1:3]
    if what == "dyn":
        t = dynamic()
        write(path, chunked(t))
    elif what == "lit":
        t = literal(int(sys.argv[3]), int(sys.argv[4]))
        write(path, lit_chunked(t))
    print(len(t), "templates")


# ------------------------------------------------------------------ lines outside the language
JMPS = ["jmp", "call"] + ["j" + c for c in JCONDS]


BAD_R = (["r%d" % i for i in list(range(8)) + list(range(16, 34)) + [99, 255]] + ["r0%d" % i for i in list(range(10)) + [12, 15]] + ["r%d%s" % (i, z) for i in (8, 9, 12, 15, 4) for z in "dwbl"] +
         "eax ecx edx ebx esp ebp esi edi ax cx dx bx sp bp si di al ah bl bh ch dl dh sil dil spl bpl ip eip rflags flags cs ds es fs gs ss cr0 cr3 dr7 st st0 mm0 k1 ymm0 zmm1 xmm1 xmm15 tmm0 bnd0".split() +
         "rxx foo rbxx R R() R[3] xmm r rAx1 _ ra rx rac rab rcd raxx rax_ rax1 _rax rax2 rbp_ crax rsx rdl rdx1 rspx zero sp0 x0 w0 a0 RIP1 ripx rips r8_ r88 r100 r1O RR RAXX".split())
BAD_X = (["xmm%d" % i for i in list(range(16, 34)) + [99, 255, 256, 257, 271, 65536]] + "xmm ymm0 ymm1 ymm15 zmm0 zmm3 xmm() xmm[1] mm0 mm7 xmm1x xmm-1 st0 st foo xm1 xmmm1 xmm_1 xmm1_ x1 xmmx rax rcx rsp r8 r15 R(3) R(n) eax xmma xmm0x1".split())


def valid_table():
    """mnemonic -> set of operand kind tuples (r gpr, x xmm, m memory, i immediate, l label)"""
    t = {}
    kind = {"a": "r", "b": "r", "A": "x", "B": "x", "m": "m", "i": "i", "qword i": "i", "cl": "r", "1": "i"}
    for f in forms():
        t.setdefault(f.mono, set()).add(tuple(kind[o] for o in f.ops))
    for j in ["j" + c for c in JCONDS]:
        t[j] = {("l",)}
    t["jmp"] = {("l",), ("r",), ("m",)}
    t["call"] = {("l",), ("r",), ("m",), ("i",)}
    for z in ("ret", "int3", "syscall"):
        t[z] = {()}
    return t


def negative(seed):
    """(class, source) of lines that must not compile."""
    r = random.Random(seed * 31337 + 5)
    T = valid_table()
    out = []
    seen = set()

    def add(cls, src):
        if cls == "condition" and src.split()[0] in T:
            return
        if src not in seen:
            seen.add(src)
            out.append((cls, src))

    gpr = [q for q in QN if q != "rsp"]

    def op(k):
        return {"r": lambda: r.choice(QN + ["R(n)", "R(3)"]), "x": lambda: r.choice(["xmm%d" % i for i in range(16)] + ["xmm(n)"]),
                "m": lambda: r.choice(["[rax]", "[rbp + 8]", "[rsi - 300]", "[rcx + rdx * 4]", "[r12 + r13 * 8 + 16]", "[rip + l]", "[R(n)]", "[rdi + (d)]"]),
                "i": lambda: r.choice(["1", "5", "100", "(d)", "(-3)", "0x10"]), "l": lambda: "l"}[k]()

    def mk(mn, ks):
        return (mn + " " + ", ".join(op(k) for k in ks)).strip() + ";"

    mns = sorted(T)
    # operand kinds and counts
    for mn in mns:
        v = T[mn]
        arity = {len(x) for x in v}
        cand = [()] + [(a,) for a in "rxmi"] + [(a, b) for a in "rxmi" for b in "rxmi"]
        three = [(a, b, c) for a in "rxmi" for b in "rxmi" for c in "rxmi"]
        cand += r.sample(three, 6) if 3 not in arity else three
        # extend valid shapes by one operand
        for x in sorted(v):
            cand.append(x + (r.choice("rxmi"),))
            if x:
                cand.append(x[:-1])
        for ks in cand:
            if ks in v or (ks and "l" in ks):
                continue
            if ks == ("i",) and mn in ("jmp", "call"):
                continue
            cls = "number of operands" if len(ks) not in arity else ("two memory operands" if ks.count("m") == 2 else "operand kind")
            add(cls, mk(mn, ks))
        # a valid line to damage
        for x in sorted(v)[:3]:
            if not x:
                base = mn
                add("trailing tokens", base + " rax;")
                add("trailing tokens", base + " 5;")
                add("trailing tokens", base + ",;")
                continue
            ops = [op(k) for k in x]
            line_ = mn + " " + ", ".join(ops)
            add("trailing tokens", line_ + " rax;")
            add("trailing tokens", line_ + " + 1;" if ops[-1][0] == "[" or ops[-1].startswith(("r", "x")) else line_ + " rax;")
            add("trailing tokens", line_ + ",;")
            add("trailing tokens", line_ + " []; ")
            if len(ops) > 1:
                add("missing separator", mn + " " + " ".join(ops) + ";")
                add("missing separator", mn + " " + "; ".join(ops) + ";")
                add("missing separator", mn + ", " + ", ".join(ops) + ";")
            add("missing separator", line_ + " movq rax, rbx;")
            add("missing separator", line_ + " ret;")
            add("missing separator", line_ + ", ret;")
            add("missing separator", line_ + ": ret;")
            add("missing separator", line_)
            # memory operands
            if "m" in x:
                p = x.index("m")

                def withmem(m):
                    o = list(ops)
                    o[p] = m
                    return mn + " " + ", ".join(o) + ";"

                for s in r.sample(["3", "5", "6", "7", "9", "10", "16", "0", "12", "32", "64", "255", "256", "257", "258", "260", "264", "65537", "4294967298"], 7):
                    add("scale factor", withmem("[rax + rbx * %s]" % s))
                    add("scale factor", withmem("[r12 + r9 * %s + 8]" % s))
                add("scale factor", withmem("[rax + rbx * (d)]"))
                add("scale factor", withmem("[rax + rbx * -2]"))
                add("scale factor", withmem("[rax + rbx * rcx]"))
                add("scale factor", withmem("[rax + rbx *]"))
                add("negated label", withmem("[rip - l]"))
                add("label without rip", withmem("[%s + l]" % r.choice(gpr)))
                add("label without rip", withmem("[%s - l]" % r.choice(gpr)))
                add("label without rip", withmem("[rax + rbx * 2 + l]"))
                add("label without rip", withmem("[rax + rbx * 4 - l]"))
                for m in ("[]", "[5]", "[rax + ]", "[rax - ]", "[rax rbx]", "[rax + rbx + rcx]", "[rax - rbx]", "[rax - rbx * 2]",
                          "[rax + rbx * 2 + rcx]", "[rax * 2]", "[xmm0]", "[rax + xmm1 * 2]", "[rax, 8]", "[rax + 8 + 8]", "[rax + 8, 4]",
                          "[rax + 8 rbx]", "[[rax]]", "(rax)", "[rax + rbx * 2 * 2]", "[l]", "[foo]", "[rax + 1.5]", "[\"rax\"]", "[rax + foo * 2]",
                          "[rax + rbx * 2 8]", "[rax + rbx * 2 + 8 + 1]", "[rax % 8]", "[rax * rbx]", "{rax}", "[eax]", "[R()]", "[R]", "[R 3]"):
                    if r.random() < 0.34:
                        add("memory operand", withmem(m))
            # registers, in every position
            for p2, k in enumerate(x):
                bad = {"r": BAD_R, "x": BAD_X}.get(k)
                if bad:
                    for b in r.sample(bad, 12):
                        other = "r" if b in QN or b in ("R(3)", "R(n)") else "x" if b in ("xmm1", "xmm15") else ""
                        if other and x[:p2] + (other,) + x[p2 + 1:] in v:
                            continue
                        add("register name", mn + " " + ", ".join(ops[:p2] + [b] + ops[p2 + 1:]) + ";")
                if k == "m":
                    for b in r.sample(BAD_R, 3):
                        for m in ("[%s]", "[%s + 8]", "[rax + %s * 2]", "[rip + l + %s]", "[%s + rcx * 4 - 8]"):
                            add("register name", mn + " " + ", ".join(ops[:p2] + [m % b] + ops[p2 + 1:]) + ";")
            for k, bad in (("r", ["rxx", "r16", "r99", "eax", "ax", "al", "r8d", "r8w", "foo", "rbxx", "R", "R()", "R[3]", "xmm", "r", "rAx1", "st0", "cr0", "R(3"[:1], "zmm1", "_"]),
                           ("x", ["xmm16", "xmm17", "xmm99", "xmm", "ymm0", "xmm()", "xmm[1]", "mm0", "xmm1x", "xmm-1", "st0", "foo"])):
                if k in x:
                    p2 = x.index(k)
                    for b in r.sample(bad, 4):
                        o = list(ops)
                        o[p2] = b
                        add("register name", mn + " " + ", ".join(o) + ";")
    # mnemonics
    letters = "abcdefghijklmnopqrstuvwxyz"
    real = set(mns) | {"jl", "jg", "nop", "movd", "mov", "add", "sub", "cmp", "test", "push", "pop", "xchg", "neg", "shl", "shr", "sal", "sar", "rol", "ror",
                       "and", "or", "xor", "adc", "sbb", "dq", "xchgl", "xchgw", "xchgb", "movss", "addss", "movapd", "lzcnt", "tzcnt", "popcnt", "cdqe"}
    k = 0
    while k < 260:
        m = r.choice(mns)
        p = r.randrange(len(m))
        how = r.randrange(5)
        n = m[:p] + r.choice(letters) + m[p + (how < 2):] if how < 3 else (m[:p] + m[p + 1:] if how == 3 else m + r.choice(letters))
        if n in real or not n or n in ("as", "in", "if", "do", "fn", "l", "d", "n"):
            continue
        # not something x86 has in a neighbouring spelling
        if n[:-1] in real or n in {x + s for x in real for s in "qlwb"}:
            continue
        k += 1
        x = sorted(T[m])[0]
        add("mnemonic", (n + " " + ", ".join(op(t) for t in x)).strip() + ";")
    # the names other assemblers and other instructions have
    shapes = ["", "rax", "l", "rax, rbx", "xmm1, xmm2", "xmm1, xmm2, 1", "rax, [rbx + 8]", "rax, 5", "[rcx], rdx", "xmm3, rax", "rdi, xmm9", "[rsi]", "cl", "5", "[r9], 7"]
    names = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "mnemonics.txt")).read().split()
    names = [n for n in names if n not in T and n != "dq"]
    known = [n for n in names if n[0] != "v"]
    for n in known:
        for x in shapes[:4] + r.sample(shapes[4:], 4):
            add("mnemonic", ("%s %s" % (n, x)).strip() + ";")
    for n in r.sample([n for n in names if n[0] == "v"], 300):
        for x in r.sample(shapes, 5):
            add("mnemonic", ("%s %s" % (n, x)).strip() + ";")
    # a supported mnemonic with something added or removed, and its own operands
    for m in mns:
        var = [m + z for z in ("q", "l", "w", "b", "d", "x", "s", "ss", "sd", "pd", "ps", "2", "64", "32", "8", "_", "qq")] + [z + m for z in ("v", "l", "x", "_", "rep", "lock", "i", "u")] + [m[:-1], m[1:], m[:-2], m.upper(), m.capitalize(), m[:-1] + m[-1].upper()]
        for n in var:
            if n and n not in T and n not in KEYWORDS and n not in ("l", "d", "n", "dq") and not n[0].isdigit():
                for x in sorted(T[m])[:1] + r.sample(sorted(T[m]), 1):
                    add("mnemonic", mk(n, x))
    for c in ("xx", "ee", "q", "zz", "eqq", "nne", "true", "gtt", "aa", "neq", "lte", "gte", "not", "0", "x"):
        add("condition", "set%s rax;" % c)
        add("condition", "cmov%sq rax, rbx;" % c)
        add("condition", "cmov%s rax, rbx;" % c)
        add("condition", "j%s l;" % c)
    for c in ("ne", "e", "a", "le"):
        add("condition", "cmov%sb rax, rbx;" % c)
        add("condition", "set%sq rax;" % c)
        add("condition", "cmov%sx rax, rbx;" % c)
    # jumps and labels
    for j in JMPS:
        if j not in ("jmp", "call"):
            for o in ("rax", "[rax]", "5", "(d)", "[rip + l]", "l, l", "l l", "l + 1", "", "xmm0", "R(n)", "l:", "\"l\""):
                add("jump operand", "%s %s;" % (j, o))
        else:
            for o in ("l, l", "l l", "l + 1", "", "xmm0", "l:", "\"l\"", "rax rbx", "[rax] [rbx]", "5.5", "[rax], 5"):
                add("jump operand", "%s %s;" % (j, o))
    for s in ("l", "l;", "l::", "l: :", ": l", "l,", "5:", "5", "(d);", "[rax];", "rax;", "rax, rbx;", "movq;", "movq :", "\"movq rax, rbx\";", "ret; ret",
              "ret ret;", "ret, ret;", "ret:: ret;", "-ret;", "ret +;", "dq;", "dq rax;", "dq l;", "dq (d) (d);", "dq 5, 6;", "dq [rax];", "dq xmm0;", "dq \"x\";", "dq 5 6;",
              "ret;;", "movq rax, qword rbx;", "movq rax, qword [rbx];", "movq qword 5, rax;", "movl rax, qword 5;", "movq [rax], qword 5;",
              "addq rax, qword 5;", "movq rax, dword 5;", "movq rax, -l;", "movq rax, l;", "addq rax, l;", "pushq l;", "lea rax, l;", "lea rax, rbx;", "lea rax, 5;",
              "roundpd xmm1, xmm2;", "roundpd xmm1, xmm2, rax;", "roundpd xmm1, xmm2, xmm3;", "roundpd xmm1, xmm2, [rax];", "shlq rax, xmm1;", "shlq rax, [rbx];",
              "shlq rax;", "shlq rax, cl, cl;", "shlq 5, cl;", "movsd rax, xmm0;", "movsd xmm0, rax;", "movsd [rax], [rbx];", "movsd xmm0, 5;", "cvtsi2sdq rax, xmm0;",
              "cvttsd2siq xmm0, rax;", "imul rax, 5;", "imul rax, rbx, 5;", "imul [rax], rbx;", "popq 5;", "popq xmm1;", "negq 5;", "setne 5;", "cmovneq [rax], rbx;"):
        add("statement", s)
    # parentheses that do not hold one expression
    for body in ("3; 4", "3,", "", "3 4", ";", "3, 4", "3;", ",", "3 +", "let q = 3", "3; let q = 4", "3 => 4", "..;", "return; 3"):
        for t in ("movq R(%s), rax;", "addl rax, R(%s);", "movsd xmm(%s), xmm1;", "movsd xmm1, xmm(%s);", "movsd xmm(%s), [rax];", "movsd [rax], xmm(%s);", "movq xmm(%s), rax;",
                  "movq rax, xmm(%s);", "movq xmm1, xmm(%s);", "sqrtpd xmm(%s), xmm1;", "cvttsd2siq rax, xmm(%s);", "cvtsi2sdq xmm(%s), rax;", "addsd xmm1, xmm(%s);",
                  "movq rax, (%s);", "movq rax, qword (%s);", "addq rax, (%s);", "movl [rax], (%s);", "cmpb rax, (%s);", "shlq rax, (%s);", "testq rax, (%s);",
                  "roundpd xmm1, xmm2, (%s);", "call (%s);", "movq rax, [rbx + (%s)];", "movq rax, [rbx - (%s)];", "movq rax, [R(%s)];", "movq rax, [rbx + R(%s) * 2];",
                  "lea rax, [rbx + rcx * 4 + (%s)];", "pushq [rip + (%s)];", "setne R(%s);", "cmovneq R(%s), rax;", "popcntq R(%s), rax;"):
            add("parenthesised operand", t % body)
    # the same inside a longer program
    for cls, src in r.sample(out, len(out) // 6):
        if src.endswith(";"):
            add(cls, "movq rax, rbx; %s ret;" % src)
            add(cls, "l: %s" % src)
    return out


# ------------------------------------------------------------------ damaged lines
def toks(src):
    """token trees: atoms, and ("[", [...]) for brackets; parenthesised groups are atoms"""
    import re
    out, stack = [], []
    cur = out
    i = 0
    while i < len(src):
        c = src[i]
        if c.isspace():
            i += 1
        elif c == "[":
            n = []
            cur.append(("[", n))
            stack.append(cur)
            cur = n
            i += 1
        elif c == "]":
            cur = stack.pop()
            i += 1
        elif c in "({":
            dep, j = 0, i
            while True:
                dep += {"(": 1, "{": 1, ")": -1, "}": -1}.get(src[j], 0)
                j += 1
                if dep == 0:
                    break
            cur.append(src[i:j])
            i = j
        else:
            m = re.match(r"\"[^\"]*\"|'[a-z]'|[A-Za-z_][A-Za-z0-9_]*|0x[0-9a-fA-F]+|[0-9]+\.[0-9]+|[0-9]+|.", src[i:])
            cur.append(m.group(0))
            i += m.end()
    return out


def untoks(t):
    return " ".join("[" + untoks(x[1]) + "]" if isinstance(x, tuple) else x for x in t)


class Grammar:
    """the language as documented: recognises token trees (generous where the documentation is silent)"""
    REGS = set(QN) | {"cl", "rip"}

    def __init__(self):
        self.T = valid_table()

    def ident(self, x):
        return isinstance(x, str) and (x[0].isalpha() or x[0] == "_")

    def num(self, x):
        return isinstance(x, str) and x[0].isdigit() and "." not in x

    def par(self, x):
        return isinstance(x, str) and x[0] == "("

    def regs(self, t):
        """number of tokens of a general register at the start, or 0"""
        if t and isinstance(t[0], str):
            if t[0].lower() in self.REGS:
                return 1
            if t[0] == "R" and len(t) > 1 and self.par(t[1]):
                return 2
        return 0

    def disp(self, t, neg, rip):
        if len(t) == 2 and t[0] == "-" and self.num(t[1]):
            return True
        return len(t) == 1 and (self.num(t[0]) or self.par(t[0]) or (self.ident(t[0]) and t[0].lower() not in self.REGS and not neg and rip))

    def mem(self, t):
        n = self.regs(t)
        if not n:
            return False
        rip = t[0] in ("rip", "R")
        t = t[n:]
        if not t:
            return True
        if t[0] not in ("+", "-"):
            return False
        neg, t = t[0] == "-", t[1:]
        if self.disp(t, neg, rip):
            return True
        n = self.regs(t)
        if neg or not n:
            return False
        t = t[n:]
        if t and t[0] == "*":
            if len(t) < 2 or t[1] not in ("1", "2", "4", "8"):
                return False
            t = t[2:]
        return not t or (t[0] in ("+", "-") and self.disp(t[1:], t[0] == "-", False))

    def kinds(self, t):
        """what an operand can be"""
        if len(t) == 1 and isinstance(t[0], tuple):
            return "m" if self.mem(t[0][1]) else ""
        if t and isinstance(t[0], str) and t[0].startswith("xmm"):
            if len(t) == 1:
                return "x" if t[0][3:].isdigit() and int(t[0][3:]) < 16 else "l"
            return "x" if t[0] == "xmm" and len(t) == 2 and self.par(t[1]) else ""
        n = self.regs(t)
        if n and n == len(t):
            return "r"
        if len(t) == 1 and (self.num(t[0]) or self.par(t[0])):
            return "i"
        if len(t) == 2 and t[0] in ("-", "qword"):
            return "i" if self.num(t[1]) or self.par(t[1]) else ""
        return "l" if len(t) == 1 and self.ident(t[0]) else ""

    def line(self, t):
        """every statement of the sequence belongs to the language"""
        while t:
            if len(t) > 1 and self.ident(t[0]) and t[1] == ":":
                if len(t) > 2 and t[2] == ":":
                    return False
                t = t[2:]
                continue
            if ";" not in t:
                return False
            k = t.index(";")
            st, t = t[:k], t[k + 1:]
            if not st or not self.ident(st[0]):
                return False
            mn, st = st[0], st[1:]
            if mn == "dq":
                if not (1 <= len(st) <= 2 and isinstance(st[-1], str) and (len(st) == 1 or st[0] == "-") and (st[-1][0].isdigit() or self.par(st[-1]))):
                    return False
                continue
            if mn not in self.T:
                return False
            ops, cur = [], []
            for x in st:
                if x == ",":
                    ops.append(cur)
                    cur = []
                else:
                    cur.append(x)
            if st:
                ops.append(cur)
            ks = [self.kinds(o) for o in ops]
            if "" in ks or tuple(ks) not in self.T[mn]:
                return False
        return True


DAMAGE = ["+", "-", "*", ",", ";", ":", "1", "2", "8", "100", "0", "rax", "r13", "rip", "rcx", "cl", "l", "n", "d", "xmm1", "xmm0", "xmm(n)", "(d)", "(n)", "(1)", "R(n)", "R(3)",
          "[rax]", "[rbp + 8]", "[rip + l]", "qword", "1.5", "\"s\"", "!", "&", "%", "/", "..", "=", "R", "ret", "movq", "<<", ".", "?", "@", "|", "^", "'a'", "as", "mut", "::", "->", "{ 5 }",
          "dword", "byte", "ptr", "lock", "short", "true", "* 2", "+ 8", "- 8", "+ rbx", ", 5", ", rax", "[ ]", "()", "(5, 6)"]


def damaged(seed, count):
    """lines one or two token edits away from valid ones, and outside the language"""
    r = random.Random(seed * 65537 + 11)
    g = Grammar()
    out = {}
    conds = [x for x in sorted(g.T) if x.startswith(("set", "cmov")) or (x[0] == "j" and x != "jmp")]
    mns = [x for x in sorted(g.T) if x not in conds]

    def op(k):
        return {"r": lambda: r.choice(QN + ["R(n)", "R(3)", "cl"]), "x": lambda: r.choice(["xmm%d" % i for i in range(16)] + ["xmm(n)"]),
                "m": lambda: r.choice(["[rax]", "[rbp + 8]", "[rsi - 300]", "[rcx + rdx]", "[rcx + rdx * 4]", "[rcx + rdx * 1 - 8]", "[r12 + r13 * 8 + 16]", "[rip + l]", "[rip + 8]", "[rip]",
                                        "[R(n)]", "[R(n) + R(3) * 2]", "[rdi + (d)]", "[rdi - (d)]", "[rbx + rsi * 2 + (d)]", "[rbx + rsi * 2 - (d)]"]),
                "i": lambda: r.choice(["1", "5", "100", "(d)", "(-3)", "0x10"]), "l": lambda: "l"}[k]()

    def place(t):
        lists = [t]
        for x in t:
            if isinstance(x, tuple):
                lists += [x[1]] * 3
        return r.choice(lists)

    k = 0
    while len(out) < count and k < count * 20:
        k += 1
        mn = conds[k // 6 % len(conds)] if k % 6 == 0 else mns[k % len(mns)]
        v = r.choice(sorted(g.T[mn]))
        if "m" not in v and r.random() < 0.4:
            w = [x for x in sorted(g.T[mn]) if "m" in x]
            v = r.choice(w) if w else v
        src = (mn + " " + ", ".join(op(x) for x in v)).strip() + ";"
        if r.random() < 0.15:
            src = "l: " + src
        if r.random() < 0.2:
            src += " ret;"
        if r.random() < 0.03:
            src = "dq %s;" % r.choice(["5", "0x10", "2.5"])
        t = toks(src)
        assert g.line(t), src
        for _ in range(r.choice([1, 1, 1, 2])):
            s = place(t)
            how = r.randrange(6)
            p = r.randrange(len(s) + 1)
            if how < 2:
                s[p:p] = toks(r.choice(DAMAGE))
            elif s and how == 2:
                del s[r.randrange(len(s))]
            elif s and how == 3:
                p = r.randrange(len(s))
                s[p:p + 1] = toks(r.choice(DAMAGE))
            elif s and how == 4:
                p = r.randrange(len(s))
                s.insert(p, s[p])
            elif len(s) > 1:
                p = r.randrange(len(s) - 1)
                s[p], s[p + 1] = s[p + 1], s[p]
        src = untoks(t)
        if not g.line(toks(src)) and src not in out:
            out[src] = 1
    return [("damaged line", x) for x in out]


def negative_file(lines):
    s = "// generated by gen.py\n#[allow(unused_imports)] use monoasm::*; #[allow(unused_imports)] use monoasm_macro::monoasm;\n"
    for k, (cls, src) in enumerate(lines):
        s += "#[allow(unused)] pub fn f%d(jit: &mut JitMemory, l: DestLabel, n: u64, d: i64) { monoasm!{ jit, %s } }\n" % (k, src)
    return s


# ------------------------------------------------------------------ operand expressions
RX = ["{v} ^ 0", "{v} | 0", "3 + ({v} + 5) - 8", "if {v} > 7 {{ {v} }} else {{ {v} + 0 }}", "{v} as u8 as u64", "{{ let q = {v}; q }}", "match {v} {{ w => w }}",
      "(|w: u64| w)({v})", "[{v}, 99][0]", "std::convert::identity({v})", "{v} << 1 >> 1", "*&{v}", "!(!{v})", "loop {{ break {v} }}", "{v}.wrapping_add(16) - 16",
      "({v}, 5).0", "Some({v}).unwrap()", "{v}.min(15) & 15", "({v} + 256) as u8 as u64", "({v} as u128 + (1 << 64)) as u64", "({v} as i64 - 16) as u64 & 15"]
DX = ["11 + ({v} - 11)", "{v} ^ 0", "{v} | 0", "-(-{v})", "if {v} < 0 {{ {v} }} else {{ {v} + 0 }}", "{{ let q = {v}; q + 0 }}", "{v} as i32", "-3 + ({v} + 3)", "{v}.wrapping_sub(3) + 3",
      "match {v} {{ w => w }}", "({v} as i32) + 0i32", "({v} as i32) ^ 0", "{v} * 1 + 0", "!(!{v})", "{v} - 9 + 9", "({v} / 1) % i64::MAX", "[7i64, {v}][1]", "-{v} * -1",
      "(|w: i64| w)({v})", "{v} >> 0", "{v} & !0", "0 - (0 - {v})", "({v} as i32 as i128) + 0", "{v} as isize",
      "({v} + (1 << 33)) as i32", "({v} ^ -1 << 40) as i32", "({v} as i128 - (1 << 32)) as i32", "({v} + (5 << 32)) as i32 + 0", "-((0 - {v} + (1 << 32)) as i32 as i64)"]
IX = ["11 + ({v} - 11)", "{v} ^ 0", "{v} | 0", "-(-{v})", "if {v} < 0 {{ {v} }} else {{ {v} + 0 }}", "{{ let q = {v}; q + 0 }}", "-3 + ({v} + 3)", "{v}.wrapping_sub(3) + 3",
      "match {v} {{ w => w }}", "{v} * 1 + 0", "!(!{v})", "{v} - 9 + 9", "[7i64, {v}][1]", "-{v} * -1", "(|w: i64| w)({v})", "{v} >> 0", "{v} & !0", "0 - (0 - {v})",
      "{v} as isize", "({v} as i128 + (1 << 64)) as i64", "({v} as i16 as i64) + ({v} - {v} as i16 as i64)"]
BASE_NAMES = ["op1", "op2", "op3", "imm", "reg", "rm", "rm_op", "r", "r1", "r2", "i", "expr", "disp", "scale", "base", "index", "label", "dest", "size", "val", "e", "x", "n",
              "imm8", "imm32", "op", "ident", "offset", "page", "mode", "ts", "src", "dst", "lhs", "rhs", "tmp", "t", "v", "num", "cond", "digit", "o", "l", "d", "self_", "modrm", "rex",
              "addr", "ptr", "res", "value", "code", "inst", "target"]
KEYWORDS = set("as break const continue crate else enum extern false fn for if impl in let loop match mod move mut pub ref return self Self static struct super trait true type unsafe "
               "use where while async await dyn abstract become box do final macro override priv try typeof unsized virtual yield gen union jit _".split())


def harvest(repo):
    """names of variables in the macro's sources (candidates for capture), those of let statements first"""
    import glob, re
    lets, others, hot = [], [], []
    for p in sorted(glob.glob(repo + "/monoasm_macro/src/*.rs")):
        s = open(p, errors="replace").read()
        for m in re.finditer(r"\blet\s+(?:mut\s+)?([a-z_][a-z0-9_]*)\b", s):
            lets.append(m.group(1))
        for m in re.finditer(r"\blet\s+\(([a-z0-9_, ]+)\)", s):
            lets += [x.strip() for x in m.group(1).split(",")]
        for m in re.finditer(r'(?:Ident::new|format_ident!)\(\s*"([A-Za-z_][A-Za-z0-9_]*)"', s):
            lets.append(m.group(1))
            hot.append(m.group(1))
        for m in re.finditer(r"quote::quote!|Span::call_site|def_site", s):
            # variables of code that is generated without hygiene
            hot += re.findall(r"\blet\s+(?:mut\s+)?([a-z_][a-z0-9_]*)\b", s[m.start():m.start() + 300])
        for m in re.finditer(r"\b(?:const|static|fn)\s+([A-Za-z_][A-Za-z0-9_]*)\b", s):
            others.append(m.group(1))
        for m in re.finditer(r"(?:Some|Ok|Err)\(([a-z_][a-z0-9_]*)\)|\|([a-z_][a-z0-9_]*)\||#([a-z_][a-z0-9_]*)", s):
            others.append(m.group(1) or m.group(2) or m.group(3))

    def uniq(v):
        return [x for x in dict.fromkeys(v) if x and x not in KEYWORDS and not x.startswith("__")]
    a = uniq(lets)
    b = [x for x in uniq(others + BASE_NAMES) if x not in a]
    return a, b, [x for x in uniq(hot) if x not in ("o", "l", "zz")][:6]


def ev_ops(f, mem, e):
    """operand texts with expressions e[slot]"""
    out = []
    for op in f.ops:
        if op == "m":
            out.append(mem)
        elif op in ("a", "b"):
            out.append("R(%s)" % e[op])
        elif op in ("A", "B"):
            out.append("xmm(%s)" % e[op.lower()])
        elif op in ("i", "qword i"):
            t = "((%s) as u8)" % e["i"] if f.imm == "U8" else "(%s)" % e["i"]
            out.append(("qword " if op != "i" else "") + t)
        elif op == "cl":
            out.append("R(%s)" % e.get("c", "1"))
        else:
            out.append(op)
    return out


def ev_mem(kind, s, e):
    return {"B": "[R({m})]", "Bp": "[R({m}) + ({d})]", "Bm": "[R({m}) - ({d})]", "X": "[R({m}) + R({x}) * %d]" % s,
            "Xp": "[R({m}) + R({x}) * %d + ({d})]" % s, "Xm": "[R({m}) + R({x}) * %d - ({d})]" % s, "Rip": "[rip + {l}]", "None": ""}[kind].format(**e)


def slots_of(f, kind):
    s = [o.lower() for o in f.ops if o in ("a", "b", "A", "B")]
    s += {"B": "m", "Bp": "md", "Bm": "md", "X": "mx", "Xp": "mxd", "Xm": "mxd", "Rip": "", "None": ""}[kind]
    if any(o in ("i", "qword i") for o in f.ops):
        s.append("i")
    if "cl" in f.ops:
        s.append("c")
    return list(s)


INTS = ["i8", "i16", "i32", "i64", "i128", "isize", "u8", "u16", "u32", "u64", "u128", "usize"]
TX = ["{v} + 0", "0 + {v}", "{v} | 0", "{v} ^ 0", "{v} - 0", "{v} * 1", "{v} / 1", "{v} << 0", "{v} >> 0", "{v} & {v}", "{v} % 127", "{v} + 1 - 1", "!(!{v})", "if true {{ {v} }} else {{ 0 }}",
      "{v}.max(0)", "{v}.clone()", "{{ {v} }} + 0", "if {v} == 0 {{ 0 }} else {{ {v} - 1 + 1 }}", "*&{v} + 0", "({v} + 0) * 1", "{v} as u8", "({v} as u64 + 256) as u8", "({v} as i64 - 512) as u8 + 0"]
# conversions that change the value, not to u8
TC = ["({v} as u64 + 65536) as i16", "({v} as i64 - 256) as i8", "({v} as u64 + 256) as i8", "({v} as i128 + (1 << 32)) as u32", "({v} as i64 - (1 << 40)) as i32", "({v} as i32 - 0x10000) as u16"]
SCOPE = [
    ("", ["if o.c == 77 {{ return }} else {{ {v} }}", "match o.c {{ 77 => return, _ => {v} }}"], ""),
    ("let go = || -> Option<()> { ", ["Some({v})?", "Some({v} + 0)? | 0", "{v}"], " Some(()) }; go().unwrap();"),
    ("let go = || -> Result<(), String> { ", ["Ok::<_, String>({v})?", "Some({v}).ok_or(String::new())?"], " Ok(()) }; go().unwrap();"),
    ("let jw = jit; loop { let jit = &mut *jw; ", ["if o.c == 77 {{ break }} else {{ {v} }}", "if o.c == 77 {{ continue }} else {{ {v} }}"], " break; }"),
    ("let jw = jit; 'w: loop { for _ in 0..1 { let jit = &mut *jw; ", ["if o.c == 77 {{ break 'w }} else {{ {v} }}", "{{ if o.c == 77 {{ continue 'w }} {v} }}"], " } break; }"),
    ("unsafe fn un<T: Copy>(t: *const T) -> T { *t } unsafe { ", ["un(&{v})", "*(&{v} as *const _)", "std::ptr::read(&{v})"], " }"),
    ("macro_rules! mine { ($e:expr) => { $e }; (@ $($t:tt)*) => { ($($t)*) } } ", ["mine!({v})", "mine!(@ {v} + 0)", "0 + mine!({v})"], ""),
    ("struct S<'a>(&'a Ops); impl S<'_> { fn go(&self, jit: &mut JitMemory) { let o = &self.0; ", ["{{ let o = self.0; {v} }}", "{{ let o = &self.0; {v} }} + 0"], " } } S(o).go(jit);"),
    ("fn go<T: Copy>(jit: &mut JitMemory, o: &Ops, t: T) where T: Into<u64> { ", ["[{v}][Into::<u64>::into(t) as usize]", "[{v}, 0][{{ let t: u64 = t.into(); t as usize }}]"], " } go(jit, o, 0u8);"),
    ("const N: usize = 0; fn go<const M: usize>(jit: &mut JitMemory, o: &Ops) { ", ["[{v}; 3][M]", "[{v}][M]", "[{v}][N + M]"], " } go::<N>(jit, o);"),
    ("let oo = std::cell::RefCell::new(*o); ", ["{{ let o = oo.borrow(); {v} }}", "{{ let o = oo.borrow_mut(); {v} }}"], ""),
    ("use std::ops::Deref; let bo = Box::new(o); ", ["{{ let o = bo.deref(); {v} }}", "{{ let o = bo.as_ref(); {v} }}"], ""),
]


def evals(seed, per_form, repo):
    r = random.Random(seed * 104729 + 3)
    lets, others, hot = harvest(repo)
    out = []
    BIT = dict(a=1, b=2, m=4, x=8, d=16, i=32, c=64)
    F = forms()
    F = [f for f in F if f.fam != "cond" or f.cond in ("o", "b", "ne", "le", "gt")]
    plainexpr = {k: "o." + k for k in "abmxdilc"}
    nrot = 0
    for n, f in enumerate(F):
        kinds = [("None", 0)]
        if f.has_mem:
            kinds = [MEMS[(n + seed) % len(MEMS)], r.choice(MEMS)]
            if ("Bm", 0) not in kinds and n % 2:
                kinds.append(("Bm", 0))
        for kind, s in kinds:
            sl = slots_of(f, kind)
            if not sl and kind != "Rip":
                continue
            mask = sum(BIT[x] for x in sl)
            base = line(f, ev_ops(f, ev_mem(kind, s, dict(plainexpr, l="l")), plainexpr))
            prel = "let l = o.l; " if kind == "Rip" else ""
            plain = "|jit, o| { let _ = o; %smonoasm!{ jit, %s } }" % (prel, base)

            def emit(cls, src, pre, counted, post=""):
                out.append('Ev { class: "%s", name: %s, mem: Mem::%s, imm: ImmK::%s, slots: %d, counted: %s, plain: %s, emit: |jit, o, zz| { let _ = (o, zz); %smonoasm!{ jit, %s }%s } },\n'
                           % (cls, rs_str(src), kind, f.imm, mask, "true" if counted else "false", plain, pre, src, post))

            # evaluation counters
            e = {k: "zz.r(%d, o.%s)" % (list(BIT).index(k), k) if k in "abmxc" else "zz.i(%d, o.%s)" % (list(BIT).index(k), k) for k in BIT}
            emit("count", line(f, ev_ops(f, ev_mem(kind, s, dict(e, l="l")), e)), prel, True)
            # a counter and an operator together
            e2 = {k: (r.choice(["0 + {}", "{} | 0", "{{ let q = {}; q }}", "if true {{ {} }} else {{ 0 }}", "{} ^ 0"]).format(e[k])) for k in e}
            emit("count", line(f, ev_ops(f, ev_mem(kind, s, dict(e2, l="l")), e2)), prel, True)
            for _ in range(per_form):
                e3 = {k: r.choice(RX if k in "abmxc" else (DX if k == "d" else IX)).format(v="o." + k) for k in BIT}
                emit("operators", line(f, ev_ops(f, ev_mem(kind, s, dict(e3, l="l")), e3)), prel, False)
            # moved values
            e4 = {k: "{ let w = b%s; *w }" % k for k in BIT}
            pre = prel + " ".join("let b%s = Box::new(o.%s);" % (k, k) for k in sl) + " "
            emit("moved", line(f, ev_ops(f, ev_mem(kind, s, dict(e4, l="l")), e4)), pre, False)
            # what an expression can do only in the place where it is written: leave the function or loop, use self, type parameters, local macros, unsafety
            for pre, x, post in r.sample(SCOPE, 2 + per_form):
                e6 = {k: r.choice(x).format(v="o." + k) for k in BIT}
                emit("scope", line(f, ev_ops(f, ev_mem(kind, s, dict(e6, l="l")), e6)), pre + prel, False, post)
            # operators on values of other types
            for _ in range(1 + per_form // 2):
                if "i" not in sl and "d" not in sl:
                    break
                ti, td = "u8" if f.imm == "U8" else r.choice(INTS), r.choice(INTS)
                e7 = dict(plainexpr, i=r.choice(TX if f.imm == "U8" else TX + TC + TC).format(v="q"), d=r.choice(TX + TC + TC).format(v="p"), l="l")
                t7 = [("(%s)" % e7["i"] if f.imm == "U8" and y == "i" else x) for x, y in zip(ev_ops(f, ev_mem(kind, s, e7), e7), f.ops)]
                src7 = line(f, t7)
                out.append('Ev { class: "types", name: %s, mem: Mem::%s, imm: ImmK::Small, slots: %d, counted: false, plain: %s, emit: |jit, o, zz| { let _ = zz; let q = o.i as %s; let p = o.d as %s; '
                           'let _ = (p, q); %smonoasm!{ jit, %s } } },\n' % (rs_str("%s with q: %s, p: %s" % (src7, ti, td)), kind, mask, plain, ti, td, prel, src7))
            # hygiene
            for h in hot:
                # every operand in turn
                for k in r.sample(sl, min(3, len(sl))):
                    eh = dict(plainexpr, **{k: h})
                    emit("hygiene", line(f, ev_ops(f, ev_mem(kind, s, dict(eh, l="l")), eh)), prel + "let %s = o.%s; " % (h, k), False)
            for q in range(per_form + 1):
                pool = (lets + lets + others) if q % 2 else lets + [r.choice(others) for _ in range(3)]
                names = list(dict.fromkeys(r.sample(pool, len(pool))))
                need = sl + (["l"] if kind == "Rip" else [])
                off = nrot
                nrot += 1
                # walk systematically over the let names
                first = lets[off % len(lets)] if lets else names[0]
                names = [first] + [x for x in names if x != first]
                while len(names) < len(need):
                    names.append("zq%d" % len(names))
                pos = (off // max(1, len(lets))) % len(need)
                names = names[:len(need)]
                names[0], names[pos] = names[pos], names[0]
                nm = dict(zip(need, names))
                if q % 3 == 2 and "jit" not in nm.values():
                    # functions of these names
                    fns = [k for k in sl]
                    pre = "".join("fn %s(q: &Ops) -> %s { q.%s } " % (nm[k], "u64" if k in "abmxc" else "i64", k) for k in fns if nm[k] != "o")
                    e5 = {k: ("%s(o)" % nm[k] if nm[k] != "o" else "o." + k) for k in fns}
                    if kind == "Rip":
                        if nm["l"] == "o" or nm["l"] in [nm[k] for k in fns]:
                            continue
                        pre += "let %s = o.l; " % nm["l"]
                        e5["l"] = nm["l"]
                    e5 = dict({k: "0" for k in BIT}, **e5)
                    emit("hygiene", line(f, ev_ops(f, ev_mem(kind, s, dict({"l": "l"}, **e5)), e5)), pre, False)
                else:
                    ks = list(nm)
                    pre = "let (%s,) = (%s,); " % (", ".join(nm[k] for k in ks), ", ".join("o." + k for k in ks))
                    e5 = dict({k: "0" for k in BIT}, **{k: nm[k] for k in ks})
                    e5.setdefault("l", "l")
                    emit("hygiene", line(f, ev_ops(f, ev_mem(kind, s, e5), e5)), pre, False)
    # labels and call offsets
    for nm in lets + others:
        for j in ("jmp {n}; je {n}; call {n};", "lea rax, [rip + {n}]; movq [rip + {n}], 5; cmpb [rip + {n}], (o2.i as i8);", "{n}: ret;", "jmp [rip + {n}]; call [rip + {n}]; movsd xmm1, [rip + {n}];"):
            src = j.format(n=nm)
            pl = j.format(n="zl")
            out.append('Ev { class: "label", name: %s, mem: Mem::None, imm: ImmK::S8, slots: 0, counted: false, plain: |jit, o2| { let zl = o2.l; let _ = o2; monoasm!{ jit, %s } }, '
                       'emit: |jit, o2, zz| { let _ = (o2, zz); let %s = o2.l; monoasm!{ jit, %s } } },\n' % (rs_str(src), pl, nm, src))
        out.append('Ev { class: "hygiene", name: %s, mem: Mem::None, imm: ImmK::S32, slots: 32, counted: false, plain: |jit, o2| { monoasm!{ jit, call (o2.i); } }, '
                   'emit: |jit, o2, zz| { let _ = zz; let %s = o2.i; monoasm!{ jit, call (%s); } } },\n' % (rs_str("call (%s);" % nm), nm, nm))
    for x in IX:
        out.append('Ev { class: "operators", name: %s, mem: Mem::None, imm: ImmK::S32, slots: 32, counted: false, plain: |jit, o| { monoasm!{ jit, call (o.i); } }, '
                   'emit: |jit, o, zz| { let _ = zz; monoasm!{ jit, call (%s); } } },\n' % (rs_str("call (%s);" % x.format(v="o.i")), x.format(v="o.i")))
    out.append('Ev { class: "count", name: "call (e);", mem: Mem::None, imm: ImmK::S32, slots: 32, counted: true, plain: |jit, o| { monoasm!{ jit, call (o.i); } }, '
               'emit: |jit, o, zz| { monoasm!{ jit, call (zz.i(5, o.i)); } } },\n')
    # integer types of immediates and displacements
    for ty in INTS:
        for x in TX + TC:
            src = "call (%s);" % x.format(v="q")
            out.append('Ev { class: "types", name: %s, mem: Mem::None, imm: ImmK::Small, slots: 32, counted: false, plain: |jit, o| { monoasm!{ jit, call (o.i); } }, '
                       'emit: |jit, o, zz| { let _ = zz; let q = o.i as %s; monoasm!{ jit, %s } } },\n' % (rs_str(src + " as " + ty), ty, src))
        for src, pl in (("movq rax, (q);", "movq rax, (o.i);"), ("movq [rax + (p)], (q);", "movq [rax + (o.d)], (o.i);"), ("addq rax, (q);", "addq rax, (o.i);"), ("movl [rbx - (p)], (q);", "movl [rbx - (o.d)], (o.i);"),
                        ("cmpl [rsp + rbp * 4 + (p)], (q);", "cmpl [rsp + rbp * 4 + (o.d)], (o.i);"), ("call (q);", "call (o.i);"), ("andl rdx, (q + 0);", "andl rdx, (o.i);"),
                        ("testq rsi, (q | 0);", "testq rsi, (o.i);"), ("movsd xmm3, [rcx - (p | 0)];", "movsd xmm3, [rcx - (o.d)];"), ("shlq rax, (q / 2);", "shlq rax, (o.i / 2);"), ("cmpb rcx, (q & 127);", "cmpb rcx, (o.i & 127);")):
            out.append('Ev { class: "types", name: %s, mem: Mem::None, imm: ImmK::Small, slots: 48, counted: false, plain: |jit, o| { monoasm!{ jit, %s } }, '
                       'emit: |jit, o, zz| { let _ = zz; let q = o.i as %s; let p = o.d as %s; let _ = p; monoasm!{ jit, %s } } },\n' % (rs_str(src + " as " + ty), pl, ty, ty, src))
    return out


def ev_chunked(out, chunk=100):
    parts = [out[i:i + chunk] for i in range(0, len(out), chunk)]
    s = "// generated by gen.py\n"
    for k, p in enumerate(parts):
        s += f"mod t{k} {{ use monharness::ev::*; use monharness::tm::*; use monoasm::*; use monoasm_macro::monoasm;\n#[allow(unused,non_snake_case,unreachable_code,clippy::all)]\npub static T: &[Ev] = &[\n{''.join(p)}]; }}\n"
    s += "use monharness::ev::Ev;\npub fn all() -> Vec<&'static Ev> { let mut v: Vec<&'static Ev> = vec![];\n"
    for k in range(len(parts)):
        s += f"v.extend(t{k}::T.iter());\n"
    return s + "v }\n"
