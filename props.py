"""Checks decided by the API-history monitors (harness/src/hist.rs, cap.rs, mt.rs, prot.rs) and by rustc itself."""
import hashlib, json, os, re, subprocess, sys
import check
from check import build, own_jobs, sc, SCR, GEN, ENV, NoAnswer

HIST_RULE = ("one evaluation = %s; distinct by the hash of what was done (call sequence with operands, pages, offsets; "
             "for runs of references: form, pages, direction, distance, number of finalizations)")
ASSUME = ["behaviour observed on this machine's CPU and Linux kernel"]


def hist(ctx, modes, tags, evals, what, profiles=("rel", "dev"), parts=8):
    """modes: (mode, quick scale, thorough scale); the dev profile (debug assertions) runs a quarter of it"""
    for prof in profiles:
        b = build(ctx, ["hist"], profile=prof)
        for mode, q, t in modes:
            s = sc(q, t)
            if prof == "dev":
                s = max(1, s // 4)
            own_jobs(ctx, b["hist"], mode, parts, s, tags=tags, tag=prof + "-")
    ctx.evals = evals
    ctx.rule = HIST_RULE % what
    ctx.assumptions = ASSUME


def c06(ctx):
    hist(ctx, [("refs", 120, 1000), ("mix", 60, 500), ("far-refs", 12, 80), ("big-refs", 24, 300)], ["C06"], "reference_runs",
         "one execution of a generated label reference whose destination was compared with the binding")


def c07(ctx):
    hist(ctx, [("items", 120, 1000), ("mix", 48, 400), ("far-items", 12, 60), ("big-items", 16, 200)], ["C07"], "item_value_checks",
         "one comparison of a placed constant / data item with its declared or last written value")
    b = build(ctx, ["hist"])
    own_jobs(ctx, b["hist"], "cap", 6, sc(1, 8), tags=["C07"])


def c08(ctx):
    hist(ctx, [("emit", 120, 1000), ("mix", 60, 500), ("far-emit", 9, 50), ("big-emit", 6, 80)], ["C08"], "image_compares",
         "one comparison of the real pages, positions and blocks with the shadow image after an API step")
    b = build(ctx, ["hist"])
    own_jobs(ctx, b["hist"], "dump", 8, sc(3, 40), tags=["C08"])
    own_jobs(ctx, b["hist"], "cap", 6, sc(1, 8), tags=["C08"])


def c09(ctx):
    hist(ctx, [("patch", 120, 1000), ("far-patch", 18, 100), ("big-patch", 32, 400)], ["C09"], "patches",
         "one patched jump or call, executed afterwards, with all other bytes compared")


def c10(ctx):
    hist(ctx, [("cap", 2, 24)], ["C10"], "experiments",
         "one emission / item / relocation at a chosen distance from the end of a page, in a forked process", parts=12)
    b, env = check.san_build(ctx, "asan")
    if b:
        n = sc(8, 80)
        check.parallel(ctx, [(check.san_run, ctx, b["hist"], env, "asan", "asan", p, n, 2, ["C10"]) for p in range(n)])


def c12(ctx):
    hist(ctx, [("query", 120, 1000), ("mix", 48, 400), ("far-query", 12, 60), ("big-labels", 16, 200)], ["C12"], "label_queries",
         "one label address query (or membership / pointer arithmetic check) compared with the address fixed at binding")


def c16(ctx):
    hist(ctx, [("multi", 40, 300)], ["C16"], "steps", "one API step of one instance among interleaved others")
    for prof in ("rel", "dev"):
        b = build(ctx, ["hist"], profile=prof)
        own_threads(ctx, b["hist"], "threads", sc(15, 300), prof)
        own_threads(ctx, b["hist"], "shared", sc(10, 200), prof)
        own_threads(ctx, b["hist"], "hammer", sc(10, 120) if prof == "rel" else sc(3, 40), prof)

    b, env = check.san_build(ctx, "tsan")
    if b:
        check.parallel(ctx, [(check.san_run, ctx, b["hist"], env, "tsan", "race", p, 4, sc(4, 60), ["C16"]) for p in range(4)], 4)


def own_threads(ctx, binpath, mode, scale, prof):
    d = os.path.join(SCR, "run", ctx.prop, prof + "-" + mode)
    for part in range(2):
        check.run_mon(ctx, [binpath, "run", "--mode=" + mode, "--seed=%d" % check.SEED, "--part=%d" % part, "--parts=2", "--scale=%d" % scale],
                      d, 400 if not check.THOROUGH else 3000, ["C16"], True, ENV)


def c18(ctx):
    hist(ctx, [("prot", 24, 200)], ["C18"], "probes",
         "one store + jump probe at an address of a page (between them, the kernel's map of the process is compared)")


CHECKS = {"C06": c06, "C07": c07, "C08": c08, "C09": c09, "C10": c10, "C12": c12, "C16": c16, "C18": c18}


def c11(ctx):
    check.gen_dyn()
    for prof in ("rel", "dev"):
        b = build(ctx, ["mon", "hist"], profile=prof, generated=["tmpl.rs"], relevant=lambda l: False)
        own_jobs(ctx, b["mon"], "reject", 16, sc(16, 80) if prof == "rel" else sc(4, 24), tags=["C11"], tag=prof + "-")
        own_jobs(ctx, b["hist"], "query", 8, sc(8, 100), tags=["C11"], tag=prof + "-")
    import gen
    far = gen.far_literals(check.SEED, sc(600, 3000))
    gen.write(GEN + "/blk.rs", gen.blk_chunked(far))
    b = build(ctx, ["blk"], generated=["blk.rs"], relevant=lambda l: False)
    own_jobs(ctx, b["blk"], "blk", 2, 1, tags=["C11"])
    n = ctx.counts.get("refused_when_compiled", 0)
    ctx.add("cases", n)
    ctx.evals = "cases"
    ctx.rule = ("one case = one emission or API call with concrete operand values, judged as panicked / not panicked; distinct by form and "
                "operand values")
    ctx.assumptions = ASSUME


CHECKS["C11"] = c11


def c15(ctx):
    import gen
    lines = gen.negative(check.SEED) + gen.damaged(check.SEED, sc(30000, 60000))
    extra = []
    if check.THOROUGH:
        for k in range(1, 6):
            extra += gen.negative(check.SEED + 1000 * k) + gen.damaged(check.SEED + 1000 * k, 60000)
    seen, todo = set(), []
    for x in lines + extra:
        if x[1] not in seen:
            seen.add(x[1])
            todo.append(x)
    good = [("control", "movq rax, rbx;"), ("control", "ret;"), ("control", "addq [rax + rbx * 2 + 8], 5;"), ("control", "movq rax, [rip + l];"),
            ("control", "jne l;"), ("control", "l: ret;"), ("control", "roundpd xmm1, xmm2, 3;"), ("control", "dq 5;")]
    todo += good
    check.refresh()
    live = list(todo)
    rejected = {}
    for rnd in range(12):
        gen.write(GEN + "/neg.rs", gen.negative_file(live))
        rc, msgs, err = check.cargo(["--profile", "rel", "--bin", "neg"])
        if rc == 0:
            break
        bad = {}
        for m in msgs:
            if m.get("reason") != "compiler-message" or m["message"]["level"] != "error":
                continue
            for lo, hi in check.span_lines(m["message"], "neg.rs"):
                k = lo - 3
                if lo == hi and 0 <= k < len(live):
                    bad.setdefault(k, m["message"]["message"])
        if not bad:
            raise NoAnswer("the lines do not compile for another reason: " + err[-1500:])
        for k, why in bad.items():
            rejected[live[k]] = why
            ctx.add("rejected_in_round_%d" % (rnd + 1))
        live = [x for k, x in enumerate(live) if k not in bad]
    else:
        raise NoAnswer("rejection does not converge")
    controls = [x for x in live if x[0] == "control"]
    if not controls:
        raise NoAnswer("not even the valid control lines compile")
    ctx.add("lines", len(todo) - len(good))
    ctx.add("controls_accepted", len(controls))
    for cls, src in live:
        if cls != "control":
            ctx.violate("C15: accepted: %s: %s" % (cls, src), "the line `%s` compiles (%s)" % (src, cls), ["monoasm!{ jit, %s }" % src])
    for (cls, src), why in rejected.items():
        ctx.add("rejected: " + cls)
        ctx.hashes.add(int(hashlib.sha256(src.encode()).hexdigest()[:16], 16))
    for (cls, src), why in list(rejected.items())[:400:40]:
        ctx.sample("%s: `%s` -> %s" % (cls, src, why[:120]))
    ctx.evals = "lines"
    ctx.rule = "one evaluation = one source line outside the language, given to the real macro and compiler; distinct by text; all are non-trivial (each must be refused)"
    ctx.assumptions = ["an error diagnostic of rustc on the line is the refusal"]


CHECKS["C15"] = c15


def c13(ctx):
    import gen
    for prof in ("rel", "dev"):
        gen.write(GEN + "/ev.rs", gen.ev_chunked(gen.evals(check.SEED, sc(2, 8), check.REPO)))
        b = build(ctx, ["ev"], profile=prof, generated=["ev.rs"])
        own_jobs(ctx, b["ev"], "ev", 8, sc(4, 40) if prof == "rel" else 1, tags=["C13"], tag=prof + "-")
    ctx.evals = "cases"
    ctx.rule = ("one case = one instruction written twice, with plain operands and with expressions of the same values (operators, blocks, closures, moves, "
                "variables and functions named like the macro's own), emitted bytes compared and evaluations counted; distinct by expression and emitted bytes")
    ctx.assumptions = ["the plain spelling (a field access) is judged by C01-C05"]


CHECKS["C13"] = c13
