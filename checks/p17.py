import vf, os, subprocess, itertools
TT = vf.C + "/gnss_converters/src/time_truth.c"
def build(ctx):
    o = os.path.join(ctx.work, "tt.o")
    c = subprocess.run(["gcc", "-std=gnu99", "-w", "-g", "-O1", "-D_GNU_SOURCE", "-fsanitize=thread"] + ["-I" + i for i in vf.INCS] + ["-c", TT, "-o", o],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if c.returncode: raise vf.MachineryError("compiling time_truth.c failed: " + c.stdout[-2000:])
    h = vf.VERIF + "/harness/"
    return ctx.build("tt_drv", [h + "tt_drv.c", h + "points.c"] + vf.SHIM, asan=False, libs=(o, "-lm", "-lpthread", "-latomic"))
TIMES = {"SomeTimes": [(2000, 5000), (2000, 6000), (2001, 1000), (1875, 7000)]}
def cfg(threads, each, record):
    return ("SPECIFICATION Spec\nCONSTANTS Threads = {%s}\n OpsEach = %d\n Times <- SomeTimes\n Record = %s\n" % (", ".join(map(str, range(threads))), each, record)
            + ("INVARIANT Emit\n" if record == "TRUE" else "INVARIANTS Honest Latest\nPROPERTIES Forward\n") + "CHECK_DEADLOCK FALSE\n")
def token(s):
    if "o" not in s: return str(s["t"])
    o = s["o"]
    return "%d:g" % s["t"] if o["op"] == "get" else "%d:u,%d,%d,%d,0" % (s["t"], o["src"], o["wn"], o["ms"])
def some_op(r, t, base):
    k = r.random()
    wn, ms = r.choice((base, base, base, base + 1, base - 1, 1875, 1876, 1023, 32766, 0, -1)), r.choice((0, 125, 250, 1000, 3000, 604799875, 604799000, r.randrange(604800) * 1000))
    if k < 0.25: return "%d:g" % t
    if k < 0.45: return "%d:s,%d,%d,%d,%d" % (t, r.choice((0, 0, 0, 1, 2, 3)), r.choice((0, 0, 1, 63)), max(0, wn), ms // 1000)
    return "%d:u,%d,%d,%d,%d" % (t, r.choice((0, 0, 1, 2, 3, 255)), wn, ms, r.choice((0,) * 9 + (1, 2, 3, 4)))
def run(ctx):
    r = ctx.rng
    ctx.model_check("MC_TimeTruth", cfg_text=cfg(3, 1, "FALSE") if ctx.quick else cfg(4, 1, "FALSE"), need_actions=("Call", "Load", "Cas"), timeout=850)
    ctx.model_check("MC_TimeTruth", cfg_text=cfg(2, 2, "FALSE"), need_actions=("Call", "Load", "Cas"), timeout=850)
    exe = build(ctx)
    beh = ctx.generate("MC_TimeTruth", cfg(2, 1, "TRUE"))
    beh += ctx.generate("MC_TimeTruth", cfg(3, 1, "TRUE"), simulate=600 if ctx.quick else 8000, depth=25)
    beh += ctx.generate("MC_TimeTruth", cfg(3, 2, "TRUE"), simulate=200 if ctx.quick else 4000, depth=60)
    scen = sorted({" ".join(token(s) for s in b) + "\n" for b in beh})
    labels = [s.strip() for s in scen]
    ctx.extra["schedules"] = len(scen)
    def add(l, toks): scen.append(" ".join(toks) + "\n"); labels.append(l)
    # one caller: histories, the order of weeks and milliseconds, sources, invalid times
    for _ in range(150 if ctx.quick else 3000):
        base = r.choice((1876, 2047, 2048, 2100, 4095, 4096, 8191, 16383, 32765))
        add("one caller", ["0:g"] + [some_op(r, 0, base) for _ in range(r.randrange(1, 14))] + ["0:g"])
    for a, b in itertools.product([(1876, 0), (1876, 604799875), (1877, 0), (2100, 125), (2100, 250), (2100, 65625), (2100, 65500), (4096, 0), (32766, 604799875), (1875, 604799875)], repeat=2):
        add("order", ["0:u,0,%d,%d,0" % a, "0:g", "0:u,0,%d,%d,0" % b, "0:g", "0:u,0,%d,%d,0" % a, "0:g"])
    for src in (0, 1, 2, 3, 4, 255):
        for kind in range(5): add("source %d kind %d" % (src, kind), ["0:u,%d,2100,5000,%d" % (src, kind), "0:g", "0:u,0,2100,4000,0", "0:g"])
    # many callers, random schedules, all kinds of reports
    for _ in range(250 if ctx.quick else 6000):
        n, base = r.choice((2, 3, 4, 8)), r.choice((1876, 2100, 2047))
        left = {t: r.choice((1, 1, 2, 3)) for t in range(n)}; busy, toks = set(), []
        for _ in range(r.randrange(5, 60)):
            t = r.randrange(n)
            if t not in busy or r.random() < 0.1:
                if left[t]: left[t] -= 1; busy.add(t); toks.append(some_op(r, t, base))
            else: toks.append(str(t))
        if r.random() < 0.3: toks.append("%d:g" % r.randrange(n))
        add("%d callers" % n, toks)
    g = ctx.conform(exe, scen, "Trace_TimeTruth", labels=labels, prep=lambda i, ev: [e for e in ev if e["e"] != "Done"])
    over = sum(1 for t in g if any(a["e"] == "Call" and b["e"] == "Call" for a, b in zip(t[1], t[1][1:])))
    ctx.extra["histories_with_overlap"] = over
    ctx.samples = [{"schedule": labels[g[i][0]], "events": str(g[i][1])[:300]} for i in range(0, len(g), max(1, len(g) // 4))]
    if not ctx.violations:
        if over < 100: raise vf.MachineryError("few overlapping histories: %d" % over)
        yes = next(t for t in g if any(e["e"] == "Ret" and e["a"] == [1] for e in t[1]))[1]
        def mut(t): next(e for e in t if e["e"] == "Ret" and e["a"] == [1])["a"] = [0]; return t
        ctx.self_test("Trace_TimeTruth", yes, mut)
        def mut2(t): t[-1]["a"] = [1999, 7]; return t
        ctx.self_test("Trace_TimeTruth", yes, mut2)
    ctx.assumptions = ["every access the code makes to the shared instance is atomic by itself (what the compiler emits for C11 atomics); schedules interleave those accesses",
                       "times are multiples of 1/8 second (the instance keeps seconds of the week in single precision; what feeds it are whole seconds)"]
