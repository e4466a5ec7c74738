import p01, p08, p12, r2sx, novsbp, rtcm2sbp as q, ubxsbp as x, ubxgen as u, vf, json
RUN = ["-I" + vf.C + "/" + d + "/src" for d in ("ubx2sbp", "ixcom2sbp", "rtcm3tosbp", "nov2sbp")]
WRAP = ["-Wl,--wrap=" + f for f in ("read", "fread", "feof", "write", "fwrite", "time")]
def build(ctx):
    H = vf.VERIF + "/harness/"
    srcs = vf.sources(*vf.LIB_ALL_C) + [vf.C + "/%s/src/%s.c" % (t, t) for t in ("ubx2sbp", "ixcom2sbp", "rtcm3tosbp")] + \
        [s for s in vf.sources("nov2sbp") if not s.endswith("_main.cc")] + [H + "tool_" + f for f in ("drv.c", "ubx2sbp.c", "ixcom2sbp.c", "rtcm3tosbp.c", "nov2sbp.cc")] + vf.SHIM
    return ctx.build("tool_drv", list(dict.fromkeys(srcs)), flags=RUN, cxx=True, defs=["-DSD_RAW"], libs=WRAP + ["-lm"])
def stream(r, b, item):
    """the bytes of a behaviour of FrameGen, and how they arrive"""
    s, cut, last = b"", [], 0
    def at(p):
        nonlocal last
        if p > last: cut.append(p - last); last = p
    for i in b["items"]:
        d = item(r, i["k"]); a = len(s); s += d; e = len(s); c = i["c"]
        if c == "edge": at(a); at(e)
        if c == "preamble": at(a + 1)
        if c == "header": at(a + r.randrange(2, 7))
        if c == "body": at(a + r.randrange(1, len(d) + 1) if d else a)
        if c == "crc": at(max(a + 1, e - r.choice((1, 2, 3))))
        if c == "each" and len(d) < 150:
            for k in range(len(d)): at(a + k + 1)
        last = min(last, len(s))
    return s, cut
CLOCKS = (1450569600, 1483056000, 1483315200, 1546300800, 1700000000, 1582934400, 1767225599)
def line(prog, s, cuts, end, args=(), clock=1700000000, cfg=None):
    return "%s %s %s %d %d %s %s\n" % (prog, vf.hexs(s), ",".join(map(str, cuts)) or "-", end, clock, json.dumps(cfg or {}, separators=(",", ":")), " ".join(args))
def mc(tool, mx, emit, numbers):
    return ("SPECIFICATION Spec\nCONSTANTS Tool = \"%s\"\n Max = %d\n Numbers = {%s}\n Emit = %s\nINVARIANTS Reads Calendar\nCHECK_DEADLOCK FALSE\n"
            % (tool, mx, ",".join(map(str, numbers)), "TRUE" if emit else "FALSE"))
IDS = (0, 1, 9, 10, 15, 66, 255, 256, 4095, 4096, 4711, 32767, 32768, 43981, 61568, 65534, 65535)
def lines(ctx, tool, mx, num):
    """command lines of the model; one in two with what does not let the program run"""
    g = ctx.generate("MC_CommandLine", mc(tool, mx, True, IDS), simulate=num, depth=mx + 2)
    out = [["".join(map(chr, a)) for a in b["args"]] for b in g]
    return out
def stops(args): return any(a in ("-h", "--help", "-t") for a in args)
def run(ctx):
    r, n = ctx.rng, 1 if ctx.quick else 10
    for t, mx in (("ubx", 2 if ctx.quick else 3), ("xcom", 2), ("rtcm", 1 if ctx.quick else 2)):
        ctx.model_check("MC_CommandLine", cfg_text=mc(t, mx, False, IDS if ctx.quick else (0, 255, 4711, 65535)), timeout=800, need_actions=("Add", "Finish"))
    exe = build(ctx)
    gen = lambda kinds, cuts, k, sim: ctx.generate("FrameGen", p01.gen_cfg(kinds, cuts, ["eof", "error"], k), **({"simulate": sim, "depth": k + 2} if sim else {}))
    def frames(kinds, most, sim):
        b = [{"items": [], "ending": "eof"}, {"items": [], "ending": "error"}] + gen(kinds, p08.CUTS, 1, 0) + gen(kinds, p08.CUTS, 6, sim * n)
        return b + gen(most, p08.CUTS, 8, sim * n)
    say = lambda b: " ".join("%s/%s" % (i["k"], i["c"]) for i in b["items"]) + " " + b["ending"]
    end = lambda b: 0 if b["ending"] == "eof" else r.choice((-1, -2, -5, -100))
    # ubx2sbp
    def ubx(r, k): return x.hnr(r) if k == "hnr" else r.choice((x.sat, lambda r: x.rawx(r, n=r.choice((0, 1, 3, 20))), x.status))(r) if k == "other" else p08.item(r, k)
    jobs = []
    kinds = [k for k in p08.KINDS if k not in ("limit", "bigfwd")] + ["hnr", "other"]
    bs = frames(kinds, ["msg", "hnr", "hnr", "other", "fwd"], 70)
    cl = lines(ctx, "ubx", 3, 120 * n)
    sc, lb = [], []
    for i, b in enumerate(bs):
        s, c = stream(r, b, ubx); a = r.choice(cl)
        if stops(a) and r.random() < .8: a = r.choice(([], ["--hnr"], ["-s", str(r.choice(IDS))]))
        sc.append(line("ubx2sbp", s, c, end(b), a)); lb.append("%s: %s" % (" ".join(a), say(b)))
    for a in cl: sc.append(line("ubx2sbp", x.pvt(r, fix=3) + x.hnr(r) + x.att(r), x.cuts(r, 150)[:40], 0, a)); lb.append("%s: positions" % " ".join(a))
    jobs.append(("Trace_ToolUbx", sc, lb))
    # ixcom2sbp
    bs = frames(p12.KINDS, ["imu", "wheel", "short", "badsum", "other"], 70)
    cl = lines(ctx, "xcom", 3, 120 * n)
    sc, lb = [], []
    for b in bs:
        s, c = stream(r, b, p12.item); a = r.choice(cl)
        if stops(a) and r.random() < .8: a = r.choice(([], ["-s", str(r.choice(IDS))]))
        sc.append(line("ixcom2sbp", s, c, end(b), a)); lb.append("%s: %s" % (" ".join(a), say(b)))
    for a in cl: sc.append(line("ixcom2sbp", p12.item(r, "imu") + p12.item(r, "wheel"), x.cuts(r, 70)[:40], 0, a)); lb.append("%s: samples" % " ".join(a))
    jobs.append(("Trace_ToolXcom", sc, lb))
    # rtcm3tosbp
    base = lambda: {"obs": 0, "time": [], "mask": [], "bias": [], "glo": [0, 0, 0, 0]}
    bs = frames(r2sx.FK, ["obs", "obs", "msm", "text", "pos"], 70)
    cl = lines(ctx, "rtcm", 4, 250 * n)
    good = [a for a in cl if not stops(a) and any(v[:2] in ("-w", "-d", "-s") for v in a)]
    sc, lb = [], []
    for b in bs:
        T = [r.randrange(1, 500000) * 1000 + 1000]
        s, c = stream(r, b, lambda r, k: r2sx.fitem(r, k, T)); a = r.choice(good if r.random() < .8 else cl)
        if r.random() < .3: a = ["-w", "2100:%d" % (T[0] // 1000)] + [v for v in a if v in ("-G", "-R", "-E", "-o")]
        sc.append(line("rtcm3tosbp", s, c, end(b), a, r.choice(CLOCKS), base())); lb.append("%s: %s" % (" ".join(a), say(b)))
    # every system, so that what is left out shows; an ephemeris that gives the week
    for a in cl:
        t = r.randrange(100, 600000) * 1000
        s = b"".join(q.frame(f) for f in [q.legacy(r, 1004, 7, t, 1, nsat=2, sats=(3, 8, 44), valid=1), q.legacy(r, 1012, 7, q.glo_tod(2000, t), 1, nsat=2, valid=1)] +
                     [q.msm(r, k, 7, q.bds_tow(t) if k == 1127 else t, int(k != 1127), sats=[1, 4, 7], weird=0) for k in (1097, 1107, 1117, 1127)] +
                     [q.msm(r, 1077, 7, t + 1000, 0, sats=[2, 5], weird=0)])
        sc.append(line("rtcm3tosbp", s, x.cuts(r, len(s))[:60], 0, a, r.choice(CLOCKS), base())); lb.append("%s: all systems" % " ".join(a))
    for c in CLOCKS:
        for a in (["-t"], ["-s"], ["-s", "-o"], ["-o"], []):
            s = q.frame(q.legacy(r, 1004, 7, 345678000, 0, nsat=2, sats=(3, 8), valid=1)) * 2
            sc.append(line("rtcm3tosbp", s, [], 0, a, c, base())); lb.append("%s at %d" % (" ".join(a), c))
    jobs.append(("Trace_ToolRtcm", sc, lb))
    # nov2sbp
    sc, lb = [], []
    for b in novsbp.histories(ctx, 6, 60 * n):
        w = novsbp.history(r, b).split()
        sc.append("nov2sbp %s %s 0 0 {}\n" % (w[0], w[1])); lb.append(novsbp.label(b))
    for s in (b"", b"\xaa", b"\xaa\x44\x12\x1c", x.noise(r, 100)): sc.append(line("nov2sbp", s, [1] * len(s), r.choice((0, 0, -1)))); lb.append("nothing whole")
    jobs.append(("Trace_ToolNov", sc, lb))
    cfg = "SPECIFICATION ToolSpec\nPOSTCONDITION TraceAccepted\nCHECK_DEADLOCK FALSE\n"
    traces = {}
    for mod, sc, lb in jobs:
        g = ctx.conform(exe, sc, mod, cfg_text=cfg, labels=lb)
        traces[mod] = g
        m = sum(len(e.get("outs", [])) for t in g for e in t[1]) + sum(e["e"] == "Sbp" for t in g for e in t[1])
        ctx.extra[mod] = {"runs": len(sc), "messages": m, "read to the end": sum(any(e["e"] == "End" for e in t[1]) for t in g)}
        ctx.samples += [{"program": mod, "run": lb[t[0]], "events": len(t[1])} for t in g[::max(1, len(g) // 3)]]
        if not ctx.violations and m < 150: raise vf.MachineryError("hardly any messages: %s" % ctx.extra[mod])
    if not ctx.violations:
        for mod in ("Trace_ToolUbx", "Trace_ToolXcom", "Trace_ToolRtcm"):
            has = lambda e: e.get("e") == "Read" and e.get("outs")
            t = next(t for t in traces[mod] if any(has(e) for e in t[1]))[1]
            def late(ev):      # a message that is written only with the next read
                i = next(i for i, e in enumerate(ev) if has(e)); j = next(j for j in range(i + 1, len(ev)) if "outs" in ev[j])
                ev[j]["outs"] = ev[i]["outs"] + ev[j]["outs"]; ev[i]["outs"] = []
                return ev
            ctx.self_test(mod, t, late, cfg_text=cfg)
            ctx.self_test(mod, t, lambda ev: ev[:-1] + [dict(ev[-1], ret=1)], cfg_text=cfg)
            ctx.self_test(mod, t, lambda ev: ev[:-1] + [dict(ev[-1], left=1)], cfg_text=cfg)
        t = next(t for t in traces["Trace_ToolUbx"] if any(has(e) for e in t[1]) and not t[1][0]["args"])[1]
        ctx.self_test("Trace_ToolUbx", t, lambda ev: [dict(ev[0], args=[[45, 115, 53]])] + ev[1:], cfg_text=cfg)
        t = next(t for t in traces["Trace_ToolRtcm"] if any(e["e"] == "Text" and e["t"] for e in t[1]))[1]
        ctx.self_test("Trace_ToolRtcm", t, lambda ev: [dict(ev[0], clock=ev[0]["clock"] + 1)] + ev[1:], cfg_text=cfg)
        t = next(t for t in traces["Trace_ToolNov"] if any(e["e"] == "Sbp" for e in t[1]))[1]
        ctx.self_test("Trace_ToolNov", t, lambda ev: ev[:-2] + ev[-1:], cfg_text=cfg)
    ctx.assumptions = ["libsbp and libswiftnav are stand-ins; the program's reads, writes and clock are served by the harness",
                       "numbers on the command line are decimal without leading zeros, or hexadecimal, in the range of what they name; writes succeed and are whole",
                       "the clock is not within the minute after a leap second"]
