import json,os,re
H=__import__("os").path.dirname(__import__("os").path.dirname(__import__("os").path.abspath(__file__)))
props=[json.loads(l) for l in open(H+"/properties.jsonl")]
T={p["id"]:p["title"] for p in props}
D={}
D["C01"]=("State monitor, modes `reg`, `memlite` (dynamic registers) and `lit-int` (literal registers).",
"every integer form (mnemonic x width x operand shape, see gen.py `forms()`), all 16x16 register pairs for two-register forms, 2-64 random machine states per case (values drawn from edge values, sign boundaries, powers of two and noise; all status flags random). Complete state compared: 16 GPRs, RFLAGS (minus the flags x86 leaves undefined for that mnemonic and operand), 16 xmm, MXCSR, the arena, and where execution went on.",
"the instruction depends on registers, values and flags; the tests run a few registers and check one result register, never the flags or the registers that must not change.")
D["C02"]=("State monitor, modes `mem` and `lit-mem`.",
"all bases (16 + rip + label) x all indices x scales x displacements at the encoding boundaries (0, +-127/128/129, i32 extremes) and random; the effective address is steered into the 4 KiB arena, everything around it (multi-GiB) is PROT_NONE, so an address that is off by anything is a fault or a changed byte. Label operands in 6 placements (same page, other page, before/after, constant, data).",
"rsp/rbp/r12/r13 special cases, disp8/disp32 choice and REX.X/B interact; the tests use a handful of addresses.")
D["C03"]=("State monitor, modes `sse` and `lit-sse`.",
"all xmm forms x register pairs x operands drawn from NaNs (quiet, signalling, payloads), infinities, zeros, denormals, integers at the 2^31/2^52/2^63 boundaries; MXCSR rounding modes and sticky exception bits are part of the state and are compared.",
"the tests only add and multiply ordinary numbers.")
D["C04"]=("State monitor, mode `imm`, in a release and a debug build, plus decoding of `call (imm)`; the monitor decides for each 64-bit value whether it is representable and expects the exact value or a panic.",
"every immediate form x all values within 2 of every boundary that matters, all powers of two, out-of-range values whose low bits would fit, random values; registers and memory operands random.",
"truncation shows only for values no test uses.")
D["C05"]=("State monitor, modes `cond`, `lit-cond` (setcc/cmovcc under all 2^6 flag combinations) and `ctl`: jumps and calls through labels, registers and memory to landing pads that identify themselves; pushed return addresses, stack pointer, flags and memory outside the pushed slot compared; int3 and syscall observed as trap / system call (seccomp-confined).",
"all conditions and spellings x distances from -2 GiB-ish (page 0 to page 1) to the next byte, all registers, all address shapes.",
"one jcc per test at most, always short, one flag state.")
HM="History monitor (hist.rs): random API histories run against the real instance and a shadow model (positions, bytes of all three pages, labels, pending references, items, blocks). After each call all positions and bytes of the three pages are compared; after each finalization every new reference is executed and must reach its landing pad. "
D["C06"]=(HM+"Modes `refs`, `mix`, `far-refs` (pages filled up to hundreds of MiB first), `big-refs` (up to 2^20 labels, hundreds of thousands of references to one label, 65 k finalizations).",
"forms: jmp, jcc, call, every rip-relative instruction shape with trailing immediates of 0, 1, 2, 4 bytes, absolute cells; references made by hand (`emit` + `save_reloc`) over fields with arbitrary old contents; both pages, both directions, binding before / between / after finalizations, `bind_label`, `bind_label_with_page`, `l:`.",
"order of reference, binding, page switches and finalizations is unbounded.")
D["C07"]=(HM+"Modes `items`, `mix`, `far-items`, `big-items`, `cap`. Item values are read back through their label after every finalization, from generated code as well as through the address; data items are written at run time and must keep the written value.",
"every item kind, sizes 0 to many MiB, all relative alignments, equal values (no sharing), declared under either selected page, memory pre-filled with noise so that a missing zero-fill shows.",
"overlap and lost updates need several items and several finalizations.")
D["C08"]=(HM+"Modes `emit`, `mix`, `far-emit`, `big-emit`, `cap`, `dump` (dump_code against an independent objdump of the same bytes).",
"instances from `new` and from `default`; inline data words; dumps of blocks beyond 64 KiB; all emit functions with special values and slices of all lengths, alignments, fills up to round positions (4 KiB, 64 KiB, page end), page switches, `as_slice`, `code_block`, `get_current`, `[Pos]` indexing.",
"the tests never look at bytes, positions or the other page.")
D["C09"]=(HM+"Modes `patch`, `far-patch`, `big-patch`.",
"jmp and call sites, by label and by address, destinations in both pages and in data, the next instruction, itself, repeated patches of one site, patches between finalizations, patching to unbound labels (must panic, no byte changes).",
"the tests patch one jump once.")
D["C10"]=("Capacity monitor (cap.rs): pages are filled to within 8 KiB of the end; then every kind of emission / item / alignment / relocation / instruction shape is tried at every distance 0-20 and around 4 KiB from the end, each in a forked copy; accepted iff it fits; both ends of every page and everything behind PROT_NONE guards are compared before and after. The guard allocator (galloc.rs) makes any access outside the block a fault. Plus the history monitors under AddressSanitizer.",
"three pages x ~90 operations x distances; item sizes around 2^32, 2^63 and 2^64; random storms of operations close to the end; indexing with any position.",
"needs 256 MiB of content before anything can go wrong.")
D["C11"]=("Reject monitor (reject.rs): every operand slot of every dynamic form gets values that cannot be encoded (must panic) and all values that can (must not), release and debug builds; API calls with foreign labels, unbound labels, pages that do not exist. 600 literal displacements outside 32 bits (with either sign in front) must be refused when compiled or panic when emitted.",
"register numbers 16..u64::MAX, rsp/rip as index, displacement just outside i32 with low bits that would fit, in each operand position.",
"the tests contain no invalid operand.")
D["C12"]=(HM+"Modes `query`, `mix`, `far-query`, `big-labels` (2^24 labels). All four address queries, include(), pointer arithmetic and ordering are asked at random moments, also after the manager was moved (Box, Vec, other stack frame) and dropped.",
"pages, moves, finalizations, instances more than 2 GiB apart.",
"stability is a statement about every later moment.")
D["C13"]=("Expansion monitor: 21 000 generated invocations, each compiled by the real macro and rustc, run and compared with the same instruction written with plain operands; instrumented expressions count their evaluations. Names harvested from the macro's own source (and its generated identifiers, constants and functions) are used as caller variables (hygiene).",
"all forms x operand slots x expression classes: operators of every precedence, blocks, closures, moves, casts that change the value, method calls, macro calls, shadowing names, all integer types with operators; expressions that only work where they are written (`?`, `return`, `break`/`continue` with labels, `self`, type and const parameters, local macros, unsafe).",
"macro hygiene and precedence only show with particular expressions.")
D["C14"]=("State monitor on literal spellings (mode `lit`), and block monitor (blk.rs): 1-25 statements (some of 5 100) in one invocation against one invocation each, jumps and calls in every spelling against the plain one.",
"every mnemonic alias, register names in mixed case, literal/computed operands, all address shapes with both signs, integer literals with suffixes, underscores, hex/octal/binary, literals beyond the form (refused, or meant at the operand width), inline data words with signs and type suffixes, any expression for the instance.",
"the spelling space is a grammar.")
D["C15"]=("Compile monitor: about 130 000 lines outside the language are given to the real macro and compiler in one crate; every line must draw an error diagnostic of its own (valid control lines must not). Lines rejected are removed and the rest compiled again until nothing but controls is left.",
"mutations of valid lines over 20 classes (operand kinds and counts, registers, scales, separators, trailing tokens, parentheses, labels, conditions, widths), a dictionary of other x86 mnemonics x operand shapes, mnemonics with letters added or dropped, registers that do not exist in every position, and 30 000 lines with randomly damaged tokens judged by an independent recognizer of the language.",
"a test that compiles cannot contain a line that must not compile.")
D["C16"]=("History monitors of up to dozens of instances interleaved in one thread (`multi`), in up to 16 threads with random delays (`threads`), code of one instance run by many threads (`shared`), and many threads emitting the same few instructions as fast as they can (`hammer`, narrow race windows); a failing history is re-run alone in its own process, and only counts here when it is right alone. The same workload under ThreadSanitizer with an instrumented std (`race`).",
"1 000s of instances, random interleavings, instances created, moved and dropped in different threads; >2^16 labels in all instances together.",
"no test has two instances or two threads.")
D["C17"]=("Whole-program monitor (prog.rs): random structured programs of up to several hundred instructions, generated by monoasm and by GNU as, run from the same state; complete final state, memory and items compared. Termination by construction (counted loops).",
"loops, forward/backward branches, subroutines, stack frames, constants, data, inline data, page hops, several finalizations inside, divisions that trap, related neighbouring instructions (same registers, inverses, the first possibly jumped over).",
"single-instruction tests cannot see interactions (distances, flags across instructions, relocations).")
D["C18"]=("Protection monitor (prot.rs): the kernel's /proc/self/maps is compared with what the instances own after creation and during histories, guards and foreign regions must not change; then store + execute probes over all pages (must run in code pages, must fault in the data page). Fault injection at creation: the n-th mprotect (symbol interposed) or the large allocation is refused; creation must fail or the instance must be complete, earlier and later instances intact.",
"several instances, pages filled to arbitrary extents, items of many MiB.",
"the tests execute a few bytes at the start of page 0.")
E={}
for p in props:
    f=H+"/evidence/%s.json"%p["id"]
    if os.path.exists(f): E[p["id"]]=json.load(open(f))
o=[]
w=o.append
w("""# Runtime monitoring of monoasm

monoasm is a single-process code generator: `monoasm!` turns assembly text into calls of the `JitMemory` encoders,
which append machine code to executable memory.  What its user can observe is (1) the effect of *running* the generated
code, (2) panics, (3) the addresses and bytes the API reports, (4) compile errors, (5) the protection of the memory.
All monitors observe exactly those, on the real code built from /repo's working tree; nothing looks at how the source
is written.  No hooks were needed in /repo (MANIFEST hooks is empty).

## Layout

| file | role |
|---|---|
| `check.py` | builds the monitors against /repo, runs them in parallel, judges, writes evidence and replay files; C01-C05, C14, C17, sanitizer builds |
| `props.py` | C06-C13, C15, C16, C18 |
| `gen.py` | the instruction table (the language) and the generators of source lines: dynamic forms, literal spellings, blocks, expressions, malformed lines |
| `harness/src/eng.rs` | execution monitor: loads a machine state, runs code in place, records the whole state; signals are outcomes; seccomp confines what stray code can do |
| `diff.rs`, `tm.rs`, `bin/ctl.rs`, `prog.rs` | differential state monitors (single instructions, control transfer, programs) |
| `hist.rs`, `big.rs`, `mt.rs`, `prot.rs`, `cap.rs`, `reject.rs` | API history monitors |
| `galloc.rs`, `fault.rs` | guard allocator; injected refusal of memory / protection |
| `ev.rs`, `blk.rs`, `bin/neg.rs` | macro expansion monitors |

Oracles: **GNU as + this CPU** for what x86-64 instructions do (same text, same initial state; encodings may differ,
effects may not); **an executable shadow model** for the memory manager; **rustc's diagnostics** for rejection;
**the kernel** (maps, signals) for protection; **ASan / TSan** for memory and races in the library's own Rust code.

A process that dies is run again; only a death that repeats while generated code or a monoasm call was active is a
violation.  Failure of the machinery itself is exit 2 (no answer), never an alarm.  A source line *of the supported
language* that the macro or rustc refuses is a violation of the property that needs it ("supported form does not assemble").

Sanitizers: TSan with `-Zbuild-std` (C16; with an uninstrumented std, `Once` produces false reports, so std is
instrumented) and ASan (C10).  A report counts only when one of its frames is in the library.  If the toolchain cannot
build them (no rust-src), the check notes it in its evidence and goes on without.  Not usable here: Miri (the library
calls mprotect through FFI and jumps into memory it wrote), MSan (freshly allocated pages are read as bytes by design).

## Properties
""")
for p in props:
    i=p["id"]; how,bounds,why=D[i]
    e=E.get(i)
    w("### %s %s\n"%(i,p["title"]))
    w("*Monitored / oracle.* %s\n"%how)
    w("*Explored.* %s\n"%bounds)
    w("*Beyond tests.* %s\n"%why)
    if e: 
        t=int(e["wall_s"]); w("*Quick run.* about %s evaluations, %s distinct, %s s on 8 cores (thorough: 8-30 times as much, more seeds' worth of everything).\n"%(format(round(e["coverage"]["evaluations"],-2),",").replace(","," "),format(e["coverage"]["distinct_nontrivial"],",").replace(","," "),max(10,round(t,-1))))
w("""## Not covered

* `monoasm/src/test.rs` (debug printing helpers for tests) is not part of any property.
* The direct encoder functions (`enc_*`) are public but exist for the macro; they are exercised through it.
* No property is listed as not applicable: all 18 are decided by observation of executions (C15 by observing the compiler).

## Defects found and repaired

All in known_findings.txt (`fixed:`), each a `fix:` commit in /repo:
""")
for l in open(H+"/known_findings.txt"):
    m=re.match(r"fixed: property=(\S+) (\S+) (.*)",l)
    if m: w("* %s (%s): %s"%(m.group(1),m.group(2),m.group(3)))
w("""
Looked at and *not* defects: instances are never freed (callers keep running the code); `jl`/`jg` are not in the jcc
list; `movb r, 128..255` is rejected (signed immediate); `dq -3.5` does not compile; u64 immediates above i64::MAX wrap by
`as i64`; `cl` is an alias of rcx; a panicking emission may leave prefix bytes; `apply_jmp_patch_address` trusts its
pointer; `[rip + rax]` is refused only when emitted; roundpd takes its mode as u8.

## False alarms of the machinery, corrected

* C17: programs could overwrite saved loop counters, the *reference* looped forever; loop counters are now protected.
* C16: TSan with an uninstrumented std reported std's `Once`; std is instrumented now.
* C13: the roundpd mode is of type u8 by declaration; the statement says so now.
* C18: the injected faults opened /proc/self/maps inside the seccomp confinement; they run before it.

## Planted bugs

`seeded/` holds changes written from the property text and the code (tools/mkbug.py confirms: applies, builds, passes the
tests, demo fails with it and passes without it).  tools/runbugs.py applies each to /repo, runs the check of its property
and undoes it.  Result of the last run (check that catches it):
""")
cg={}
if os.path.exists(H+"/tools/caught.txt"):
    for l in open(H+"/tools/caught.txt"):
        m=re.match(r"(caught|MISSED) (\S+) (C\d\d)",l)
        if m: cg.setdefault(m.group(2),[]).append((m.group(3),m.group(1)))
w("| bug | property | needs | caught by |\n|---|---|---|---|")
for b in sorted(os.listdir(H+"/seeded")):
    m=json.load(open(H+"/seeded/%s/meta.json"%b))
    c=", ".join(x for x,y in cg.get(b,[]) if y=="caught") or "MISSED"
    w("| %s | %s | %s | %s |"%(b,m["property"],m["needs"].replace("|","/"),c))
w(open(H+"/tools/campaign.md").read())
open(H+"/DESIGN.md","w").write("\n".join(o)+"\n")
