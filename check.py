#!/usr/bin/env python3
"""check.py PROPERTY  - decides one property (tier from VERIF_TIER, seed from VERIF_SEED).

Builds the monitors against /repo's working tree, runs them, writes evidence/<id>.json.
exit 0: held on everything explored; 1: VIOLATION line printed; 2: no answer (does not build, monitor failed)."""
import concurrent.futures, fcntl, glob, hashlib, json, os, re, shutil, struct, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
SCR = os.path.join(HERE, "scratch")
TGT = os.path.join(HERE, "target")
GEN = os.path.join(SCR, "gen")
sys.path.insert(0, HERE)
import gen

TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1"))
THOROUGH = TIER == "thorough"
T0 = time.time()
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="nightly", CARGO_NET_OFFLINE="true", MON_GEN=GEN, CARGO_TARGET_DIR=TGT,
           CARGO_TERM_COLOR="never", RUST_BACKTRACE="0")
ENV.pop("RUSTFLAGS", None)
TRIPLE = "x86_64-unknown-linux-gnu"
DEADLINE = T0 + (6 * 3600 if THOROUGH else 840)


class NoAnswer(Exception):
    pass


class Ctx:
    def __init__(self, prop):
        self.prop = prop
        self.violations = []  # dict(key, detail, replay)
        self.counts = {}
        self.samples = []
        self.hashes = set()
        self.notes = []

    def add(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def violate(self, key, detail, cmd=None):
        self.violations.append(dict(key=key, detail=detail, cmd=cmd))

    def sample(self, s):
        if len(self.samples) < 40:
            self.samples.append(s)


def log(*a):
    print("[%6.1fs]" % (time.time() - T0), *a, file=sys.stderr, flush=True)


# ---------------------------------------------------------------- building
def repo_hash():
    h = hashlib.sha256()
    files = subprocess.run(["git", "-C", REPO, "ls-files", "-co", "--exclude-standard"], capture_output=True, text=True).stdout.split("\n")
    for f in sorted(files):
        p = os.path.join(REPO, f)
        if f.endswith((".rs", ".toml", ".lock")) and os.path.isfile(p):
            h.update(f.encode() + b"\0" + open(p, "rb").read() + b"\0")
    return h.hexdigest()


def refresh(env=None):
    """Do not trust modification times: force a rebuild when the contents of /repo changed."""
    env = env or ENV
    tgt = env["CARGO_TARGET_DIR"]
    os.makedirs(tgt, exist_ok=True)
    stamp = os.path.join(tgt, "repo.sha256")
    h = repo_hash()
    old = open(stamp).read() if os.path.exists(stamp) else ""
    if old != h:
        for extra in ([], ["--profile", "rel"], ["--target", TRIPLE], ["--target", TRIPLE, "--profile", "rel"]):
            subprocess.run(["cargo", "clean", "--offline", "-p", "monoasm", "-p", "monoasm_macro", "-p", "monharness"] + extra,
                           cwd=HERE + "/harness", env=env, capture_output=True)
        with open(stamp, "w") as f:
            f.write(h)


def cargo(args, env=ENV):
    p = subprocess.run(["cargo", "build", "--offline", "--message-format=json"] + args, cwd=HERE + "/harness", env=env,
                       capture_output=True, text=True)
    msgs = []
    for l in p.stdout.split("\n"):
        if l.startswith("{"):
            try:
                msgs.append(json.loads(l))
            except ValueError:
                pass
    return p.returncode, msgs, p.stderr


def span_lines(msg, fname):
    """lines of the generated file a diagnostic points to (outermost expansion sites)"""
    out = set()

    def walk(s):
        if s.get("file_name", "").endswith(fname):
            out.add((s["line_start"], s["line_end"]))
        e = s.get("expansion")
        if e:
            walk(e["span"])

    for s in msg.get("spans", []):
        if s.get("is_primary", True):
            walk(s)
    return out


def macro_site(msg):
    """source text of the monoasm! invocation of the monitors themselves that a diagnostic points to, or None"""
    # an error of the macro itself has no code; a name it took for a label is an unknown value
    refused = msg.get("code") is None or (msg["code"] or {}).get("code") == "E0425"

    def walk(s):
        e = s.get("expansion")
        if e:
            if "monoasm" in e.get("macro_decl_name", ""):
                return walk(e["span"]) or "%s:%d" % (e["span"]["file_name"], e["span"]["line_start"])
            return walk(e["span"])
        t = " ".join(x["text"].strip() for x in s.get("text", []))
        return "%s:%d %s" % (s["file_name"], s["line_start"], t[:300]) if "monoasm!" in t or refused else None

    for s in msg.get("spans", []):
        if s.get("is_primary", True) and s.get("file_name", "").startswith("src/"):
            w = walk(s)
            if w:
                return w
    return None


def build(ctx, bins, profile="rel", generated=None, env=ENV, extra=(), relevant=None):
    """Build the monitor binaries.  Generated source lines that the macro refuses are dropped and reported
    through `relevant(line) -> bool` as violations (a documented form no longer assembles)."""
    refresh(env)
    tdir = env["CARGO_TARGET_DIR"] + ("/" + TRIPLE if "--target" in extra else "")
    outdir = os.path.join(tdir, "debug" if profile == "dev" else profile)
    for round_ in range(8):
        rc, msgs, err = cargo(["--profile", profile] + [x for b in bins for x in ("--bin", b)] + list(extra), env)
        if rc == 0:
            return {b: os.path.join(outdir, b) for b in bins}
        errs = [m["message"] for m in msgs if m.get("reason") == "compiler-message" and m["message"]["level"] == "error"]
        dropped = 0
        for gname in (generated or []):
            path = os.path.join(GEN, gname)
            lines = open(path).read().split("\n")
            bad = {}
            for m in errs:
                for lo, hi in span_lines(m, gname):
                    if hi - lo < 3 and "monoasm!" in lines[lo - 1]:
                        bad.setdefault(lo - 1, m["message"])
            for n, why in bad.items():
                src = lines[n]
                lines[n] = ""
                dropped += 1
                if gen.MAY_REFUSE in src:
                    ctx.add("refused_when_compiled")
                    continue
                if relevant is None or relevant(src):
                    mm = re.search(r"monoasm!\{ ?(.*?) ?\}", src)
                    ctx.violate("supported form does not assemble", "%s: %s" % (mm.group(1) if mm else src[:200], why))
            if bad:
                open(path, "w").write("\n".join(lines))
        if not dropped:
            for m in errs:
                site = macro_site(m)
                if site:
                    ctx.violate("supported form does not assemble", "%s: %s" % (site, m["message"]))
            text = "\n".join(m.get("rendered") or m["message"] for m in errs[:5]) or err[-3000:]
            raise NoAnswer("build failed:\n" + text[:3000])
    raise NoAnswer("build does not converge")


def gen_dyn():
    gen.write(GEN + "/tmpl.rs", gen.chunked(gen.dynamic()))


def gen_lit():
    gen.write(GEN + "/lit.rs", gen.lit_chunked(gen.literal(SEED, 12 if THOROUGH else 6)))


# ---------------------------------------------------------------- running monitors
def read_hashes(ctx, p):
    if os.path.exists(p):
        b = open(p, "rb").read()
        ctx.hashes.update(struct.unpack("<%dQ" % (len(b) // 8), b))


def run_mon(ctx, cmd, workdir, timeout, tags=None, confirm=True, env=ENV):
    """Run one monitor process and collect its report.  A process that dies or hangs is run again;
    dying every time while generated code or the API was active is a violation."""
    os.makedirs(workdir, exist_ok=True)
    prog, hs = workdir + "/progress", workdir + "/hashes"
    full = cmd + ["--progress=" + prog, "--hashes=" + hs]
    for attempt in range(3):
        for f in (prog, hs):
            if os.path.exists(f):
                os.remove(f)
        e = dict(env, TMPDIR=workdir)
        try:
            p = subprocess.run(full, capture_output=True, timeout=timeout, env=e, cwd=workdir)
            out, err, rc = p.stdout.decode("utf8", "replace"), p.stderr.decode("utf8", "replace"), p.returncode
        except subprocess.TimeoutExpired as x:
            out, err, rc = (x.stdout or b"").decode("utf8", "replace"), (x.stderr or b"").decode("utf8", "replace"), "timeout"
        done = None
        viol = []
        susp = []
        for l in out.split("\n"):
            if l.startswith("{"):
                try:
                    j = json.loads(l)
                except ValueError:
                    continue
                if "violation" in j:
                    viol.append(j)
                elif "suspect" in j:
                    susp.append(j)
                elif j.get("done"):
                    done = j
        if tags is not None:
            viol = [v for v in viol if any(v["violation"].startswith(t + ":") for t in tags)]
        for s in susp:
            # wrong among others: is it right alone, in a process of its own?
            try:
                p = subprocess.run(cmd[:2] + s["args"], capture_output=True, timeout=timeout, env=e, cwd=workdir)
                alone = p.returncode == 0 and b'"done":true,"violations":0' in p.stdout
            except subprocess.TimeoutExpired:
                alone = False
            if alone:
                viol.append(dict(violation=s["suspect"], detail=s["detail"] + " (the same history alone is fine: %s)" % " ".join(s["args"])))
            else:
                ctx.add("fails_alone_too")
        if done is not None and rc == 0:
            break
        if viol:
            break
        if rc == "timeout" and attempt:
            break
        if attempt < 2:
            log("monitor died (%s), running again: %s\n%s" % (rc, " ".join(full), err[-600:]))
    for v in viol:
        ctx.violate(v["violation"], v["detail"], full)
    if done is None or rc != 0:
        stage, text, case = 0, "", 0
        if os.path.exists(prog):
            b = open(prog, "rb").read()
            if len(b) >= 24:
                case, stage, n = struct.unpack("<QQQ", b[:24])
                text = b[24:24 + min(n, 4000)].decode("utf8", "replace")
        if not viol:
            asan = "AddressSanitizer" in err or "ThreadSanitizer" in err
            if stage in (1, 3, 4) or asan:
                what = {1: "emitting", 3: "running generated code", 4: "in a monoasm call"}.get(stage, "running")
                rep = ""
                if asan:
                    m = re.search(r"(==\d+==ERROR: AddressSanitizer.*?)\n\n", err, re.S) or re.search(r"(WARNING: ThreadSanitizer.*?)\n\n", err, re.S)
                    rep = m.group(1)[:1500] if m else err[-1500:]
                ctx.violate("process died (%s) while %s" % (rc, what), "case %d: %s %s %s" % (case, text, rep, err[-400:]), full)
            else:
                raise NoAnswer("monitor failed rc=%s stage=%s %s\n%s\n%s" % (rc, stage, " ".join(full), out[-500:], err[-1500:]))
        return
    for k, v in done["counts"].items():
        if k in ("forms", "max"):
            ctx.counts[k] = max(ctx.counts.get(k, 0), v)
        else:
            ctx.add(k, v)
    for s in done["samples"][:4]:
        ctx.sample(s)
    read_hashes(ctx, hs)


def diff_job(ctx, binpath, mode, part, parts, scale, tag):
    d = os.path.join(SCR, "run", ctx.prop, "%s-%s-%d" % (tag, mode, part))
    os.makedirs(d, exist_ok=True)
    base = ["--mode=" + mode, "--seed=%d" % SEED, "--part=%d" % part, "--parts=%d" % parts, "--scale=%d" % scale]

    def sh(c):
        p = subprocess.run(c, capture_output=True, text=True)
        if p.returncode:
            raise NoAnswer("reference preparation failed: %s\n%s" % (" ".join(c), p.stderr[-1500:]))

    sh([binpath, "plan"] + base + ["--out=" + d + "/x.s"])
    sh(["as", "--64", d + "/x.s", "-o", d + "/x.o"])
    sh(["objcopy", "-O", "binary", "-j", ".text", d + "/x.o", d + "/text.bin"])
    sh(["objcopy", "-O", "binary", "--set-section-flags", ".tab=alloc,contents,load", "-j", ".tab", d + "/x.o", d + "/tab.bin"])
    os.remove(d + "/x.s")
    os.remove(d + "/x.o")
    run_mon(ctx, [binpath, "run"] + base + ["--text=" + d + "/text.bin", "--tab=" + d + "/tab.bin"], d, 600 if not THOROUGH else 3000)


def parallel(ctx, jobs, workers=8):
    with concurrent.futures.ThreadPoolExecutor(workers) as ex:
        fs = [ex.submit(*j) for j in jobs]
        for f in concurrent.futures.as_completed(fs):
            f.result()


def diff_jobs(ctx, bins, spec):
    """spec: (bin, mode, scale, partsfactor)"""
    jobs = []
    for b, mode, scale, parts in spec:
        for p in range(parts):
            jobs.append((diff_job, ctx, bins[b], mode, p, parts, scale, os.path.basename(os.path.dirname(bins[b])) + "-" + b))
    parallel(ctx, jobs)


# ---------------------------------------------------------------- sanitizer builds
SAN = {  # name: (rustflags, cargo arguments, environment of the run)
    # the standard library is instrumented too (-Zbuild-std): its locks and Once order what they order
    "tsan": ("-Zsanitizer=thread", ["-Zbuild-std"], dict(TSAN_OPTIONS="halt_on_error=0 exitcode=0 report_signal_unsafe=0 history_size=4")),
    # instances are never freed by design, so unfreed memory is not reported
    "asan": ("-Zsanitizer=address", ["--features", "sysalloc"], dict(ASAN_OPTIONS="detect_leaks=0 abort_on_error=0 exitcode=0 halt_on_error=1 allocator_may_return_null=0 detect_stack_use_after_return=1")),
}


def san_build(ctx, name, bins=("hist",)):
    """binaries instrumented by a compiler sanitizer, or None when this toolchain cannot build them"""
    flags, args, runenv = SAN[name]
    env = dict(ENV, RUSTFLAGS=flags, CARGO_TARGET_DIR=TGT + "-" + name)
    try:
        b = build(Ctx(ctx.prop), list(bins), env=env, extra=["--target", TRIPLE] + args)
    except NoAnswer as e:
        ctx.notes.append("%s build not possible here: %s" % (name, str(e)[:300]))
        log("no %s build: %s" % (name, str(e)[:600]))
        return None, None
    return b, dict(ENV, **runenv)


def san_reports(err):
    """reports of a sanitizer; only those whose accesses involve code of the library under test"""
    out = []
    for rep in re.split(r"(?=^WARNING: ThreadSanitizer|^==\d+==ERROR: AddressSanitizer)", err, flags=re.M)[1:]:
        frames = re.findall(r"^\s+#(\d+) (.*)$", rep, flags=re.M)
        if any("monoasm/src/" in f or "monoasm::" in f for _, f in frames):
            out.append(rep)
    return out


def san_run(ctx, binpath, env, name, mode, part, parts, scale, tags):
    d = os.path.join(SCR, "run", ctx.prop, "%s-%s-%d" % (name, mode, part))
    os.makedirs(d, exist_ok=True)
    cmd = [binpath, "run", "--mode=" + mode, "--seed=%d" % SEED, "--part=%d" % part, "--parts=%d" % parts, "--scale=%d" % scale]
    for attempt in range(2):
        try:
            p = subprocess.run(cmd, capture_output=True, timeout=300 if not THOROUGH else 3000, env=dict(env, TMPDIR=d), cwd=d)
        except subprocess.TimeoutExpired:
            ctx.notes.append("%s run of part %d took too long and is not counted" % (name, part))
            return
        out, err = p.stdout.decode("utf8", "replace"), p.stderr.decode("utf8", "replace")
        reps = san_reports(err)
        if reps:
            for r in reps[:3]:
                m = re.search(r"(ThreadSanitizer|AddressSanitizer): ([^\n(]*)", r)
                ctx.violate("%s: %s" % (tags[0], m.group(0).strip()[:100]), r[:2500], cmd)
            return
        done = None
        for l in out.split("\n"):
            if l.startswith("{"):
                j = json.loads(l)
                if j.get("done"):
                    done = j
        if done:
            break
    if not done:
        # what the history monitors themselves see is judged by the plain runs
        ctx.notes.append("%s run of part %d ended with %s: %s" % (name, part, p.returncode, err[-300:]))
        return
    for k, v in done["counts"].items():
        ctx.add("%s_%s" % (name, k), v)


def tmpl_relevant(fams=None, mem=None, imm=None):
    def f(line):
        if fams and not any('fam: "%s"' % x in line for x in fams):
            return False
        if mem and "mem: Mem::None" in line:
            return False
        if imm and "imm: ImmK::None" in line:
            return False
        return True
    return f


DIFF_RULE = ("one case = one instruction form with concrete operands, emitted by monoasm and run in place from 2-64 random machine "
             "states next to the same instruction assembled by GNU as; distinct by emitted byte string (or rejected value), "
             "non-trivial when the reference run changes registers, flags, xmm or memory (or is a rejection)")


def sc(q, t):
    return t if THOROUGH else q


def c01(ctx):
    gen_dyn(); gen_lit()
    b = build(ctx, ["mon", "lit"], generated=["tmpl.rs", "lit.rs"], relevant=tmpl_relevant(["int", "cond"]))
    diff_jobs(ctx, b, [("mon", "reg", sc(24, 90), 16), ("mon", "memlite", sc(12, 60), 8), ("lit", "lit-int", sc(12, 40), 8)])
    ctx.evals, ctx.rule = "cases", DIFF_RULE


def c02(ctx):
    gen_dyn(); gen_lit()
    b = build(ctx, ["mon", "lit"], generated=["tmpl.rs", "lit.rs"], relevant=tmpl_relevant(mem=True))
    diff_jobs(ctx, b, [("mon", "mem", sc(12, 50), 24), ("lit", "lit-mem", sc(12, 40), 8)])
    ctx.evals, ctx.rule = "cases", DIFF_RULE


def c03(ctx):
    gen_dyn(); gen_lit()
    b = build(ctx, ["mon", "lit"], generated=["tmpl.rs", "lit.rs"], relevant=tmpl_relevant(["sse"]))
    diff_jobs(ctx, b, [("mon", "sse", sc(240, 600), 16), ("lit", "lit-sse", sc(48, 160), 8)])
    ctx.evals, ctx.rule = "cases", DIFF_RULE


def c04(ctx):
    gen_dyn(); gen_lit()
    rel = tmpl_relevant(imm=True)
    b = build(ctx, ["mon", "lit", "ctl"], generated=["tmpl.rs", "lit.rs"], relevant=rel)
    d = build(ctx, ["mon"], profile="dev", generated=["tmpl.rs"], relevant=rel)
    diff_jobs(ctx, b, [("mon", "imm", sc(24, 80), 16), ("lit", "lit-imm", sc(12, 40), 8)])
    diff_jobs(ctx, d, [("mon", "imm", sc(3, 12), 8)])
    own_jobs(ctx, b["ctl"], "callimm", 4, sc(3, 20))
    ctx.evals, ctx.rule = "cases", DIFF_RULE


def own_jobs(ctx, binpath, mode, parts, scale, tags=None, env=ENV, tag="", timeout=None):
    jobs = []
    for p in range(parts):
        d = os.path.join(SCR, "run", ctx.prop, "%s%s-%s-%d" % (tag, os.path.basename(binpath), mode, p))
        jobs.append((run_mon, ctx, [binpath, "run", "--mode=" + mode, "--seed=%d" % SEED, "--part=%d" % p, "--parts=%d" % parts, "--scale=%d" % scale],
                     d, timeout or (400 if not THOROUGH else 3000), tags, True, env))
    parallel(ctx, jobs)


def c05(ctx):
    gen_dyn(); gen_lit()
    b = build(ctx, ["mon", "lit", "ctl"], generated=["tmpl.rs", "lit.rs"], relevant=tmpl_relevant(["cond", "stack"]))
    diff_jobs(ctx, b, [("mon", "cond", sc(80, 200), 16), ("lit", "lit-cond", sc(40, 120), 8)])
    own_jobs(ctx, b["ctl"], "ctl", 8, sc(30, 100))
    ctx.evals, ctx.rule = "cases", DIFF_RULE + "; control transfers: one case = one branch form, distance and target, run under flag combinations, distinct by form and distance"


def c14(ctx):
    gen_dyn(); gen_lit()
    b = build(ctx, ["mon", "lit"], generated=["tmpl.rs", "lit.rs"])
    diff_jobs(ctx, b, [("lit", "lit", sc(32, 80), 16), ("mon", "memlite", 4, 4)])
    gen.write(GEN + "/blk.rs", gen.blk_chunked(gen.blocks(SEED, sc(700, 2400))))
    b = build(ctx, ["blk"], generated=["blk.rs"])
    own_jobs(ctx, b["blk"], "blk", 8, 1)
    ctx.evals, ctx.rule = "cases", DIFF_RULE + "; blocks: one case = 1-25 statements in one invocation compared with separate invocations"


def c17(ctx):
    gen_dyn()
    b = build(ctx, ["mon"], generated=["tmpl.rs"], relevant=lambda l: False)
    diff_jobs(ctx, b, [("mon", "prog", sc(90, 300), 16)])
    d = build(ctx, ["mon"], profile="dev", generated=["tmpl.rs"], relevant=lambda l: False)
    diff_jobs(ctx, d, [("mon", "prog", sc(12, 40), 8)])
    ctx.evals = "executions"
    ctx.rule = ("one evaluation = one run of a whole program (monoasm's or the reference's), final registers, flags, xmm, MXCSR, memory and items compared; "
                "distinct by the final state; non-trivial when the program changes the state")


CHECKS = {"C01": c01, "C02": c02, "C03": c03, "C04": c04, "C05": c05, "C14": c14, "C17": c17}


def known_findings(prop):
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) key=(.*)$", l.strip())
            if m and m.group(1) == prop:
                out.append(m.group(2))
    return out


def main():
    prop = sys.argv[1]
    os.makedirs(SCR, exist_ok=True)
    lock = open(os.path.join(SCR, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    ctx = Ctx(prop)
    if prop == "setup":
        for tool in ("cargo", "as", "objcopy"):
            subprocess.run([tool, "--version"], check=True, env=ENV, stdout=subprocess.DEVNULL)
        build(ctx, ["hist", "ctl"])
        print("setup ok")
        return
    rundir = os.path.join(SCR, "run", prop)
    shutil.rmtree(rundir, ignore_errors=True)
    try:
        import props
        fn = CHECKS.get(prop) or props.CHECKS[prop]
        fn(ctx)
    except NoAnswer as e:
        if not ctx.violations:
            print("NO ANSWER: %s" % e)
            sys.exit(2)
        log("incomplete run: %s" % str(e)[:500])
    known = known_findings(prop)
    news, olds = [], []
    for v in ctx.violations:
        (olds if v["key"] in known else news).append(v)
    for k in sorted({v["key"] for v in olds}):
        print("KNOWN-FINDING: property=%s %s" % (prop, k))
    ev = ctx.counts.get(getattr(ctx, "evals", "cases"), 0)
    evidence = dict(property=prop, tier=TIER if TIER in ("quick", "thorough") else "quick", seed=SEED, level="exploration",
                    coverage=dict(evaluations=ev, distinct_nontrivial=len(ctx.hashes), rule=getattr(ctx, "rule", ""),
                                  samples=ctx.samples[:12] or ["-"], observed=ctx.counts, notes=ctx.notes),
                    assumptions=getattr(ctx, "assumptions", ["the CPU of this machine and GNU as are the reference for x86-64"]),
                    wall_s=round(time.time() - T0, 2), violations=len(news))
    os.makedirs(HERE + "/evidence", exist_ok=True)
    with open(HERE + "/evidence/%s.json" % prop, "w") as f:
        json.dump(evidence, f, indent=1)
    shutil.rmtree(rundir, ignore_errors=True)
    if news:
        rd = os.path.join(SCR, "replay")
        os.makedirs(rd, exist_ok=True)
        path = os.path.join(rd, "%s-seed%d.json" % (prop, SEED))
        with open(path, "w") as f:
            json.dump(dict(property=prop, seed=SEED, tier=TIER, rerun="cd /verif && VERIF_SEED=%d VERIF_TIER=%s python3 check.py %s" % (SEED, TIER, prop),
                           violations=news[:60]), f, indent=1)
        seen = set()
        for v in news:
            if v["key"] not in seen and len(seen) < 8:
                seen.add(v["key"])
                print("  %s: %s" % (v["key"], v["detail"][:600]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        sys.exit(1)
    print("OK property=%s evaluations=%d distinct=%d wall=%.1fs %s" % (prop, ev, len(ctx.hashes), time.time() - T0, json.dumps(ctx.counts)))
    sys.exit(0)


if __name__ == "__main__":
    sys.modules["check"] = sys.modules["__main__"]
    main()
