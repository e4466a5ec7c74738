import rtcmgen as g, vf
TYPES = g.OBS + [1005, 1006, 1007, 1008, 1029, 1033, 1230, 4062, 4075]
SRCS = lambda: vf.sources("librtcm/src") + [vf.VERIF + "/harness/rtcm_drv.c", vf.SHIM[0]]

def run(ctx):
    r = ctx.rng
    ctx.model_check("MC_RtcmLayout", need_actions=("Pick",), workers=1)
    exe = ctx.build("rtcm_drv", SRCS())
    scen, labels = [], []
    def add(label, msgs):
        scen.append("".join("D %d %s\n" % (t, vf.hexs(b)) for t, b in msgs) + ".\n")
        labels.append(label)
    k = 1 if ctx.quick else 12
    for t in TYPES + g.MSM:
        for _ in range(k * (4 if t in TYPES else 2)):
            add("%d random" % t, [(t, g.body(r, t)) for _ in range(3)])
        # truncated anywhere
        if t != 4075:
            b = g.obs(r, t, nsat=2) if t in g.OBS else g.msm(r, t, dims=(3, 2), dense=0.8) if t in g.MSM else g.body(r, t)
            if len(b) > 90: b = min((g.body(r, t) for _ in range(12)), key=len)
            cuts = sorted(set([0, 1, 2] + [r.randrange(len(b)) for _ in range(12)] + [len(b) - 1, len(b)]))
            add("%d truncated" % t, [(t, b[:n]) for n in cuts if n <= len(b)])
        # another message's number
        o = r.choice([x for x in TYPES + g.MSM if x != t])
        add("%d given to %d" % (o, t), [(t, g.body(r, o) + bytes(40))] if t != 4075 else [(t, g.body(r, 4062) + bytes(2000))])
    # the number is one off in a single bit
    for t in TYPES + g.MSM:
        b = bytearray(g.body(r, t) + bytes(1200 if t == 4075 else 0))
        m = []
        for i in range(12):
            c = bytearray(b); c[i // 8] ^= 0x80 >> (i % 8); m.append((t, bytes(c)))
        add("%d number bits" % t, m)
    # every bit of a fixed-size message alone
    for t, n in ((1005, 152), (1006, 168), (1007, 48), (1230, 96), (1001, 64 + 58), (1002, 64 + 74), (1003, 64 + 101),
                 (1004, 64 + 125), (1010, 61 + 79), (1012, 61 + 130)):
        m = []
        hb = 61 if t in (1010, 1012) else 64
        for i in range(12, n):
            w = g.Bits().u(t, 12).u(0, n - 12)
            if t in g.OBS:
                if i < hb: continue
                w.b[hb - 9:hb - 4] = [0, 0, 0, 0, 1]
            if t == 1230: w.b[28:32] = [1, 1, 1, 1]
            if t == 1007 and 24 <= i < 32: continue
            w.b[i] ^= 1
            if t in g.OBS and i == hb + 7 + (5 if hb == 61 else 0) + (25 if hb == 61 else 24) - 20: w.b[i + 1] ^= 1
            m.append((t, w.bytes()))
        for j in range(0, len(m), 40): add("%d single bits" % t, m[j:j + 40])
    # all lock time indicators
    for t in (1001, 1012):
        for lo in range(0, 128, 31):
            w = g.Bits().u(t, 12).u(7, 12).u(1000, 27 if t == 1012 else 30).u(0, 1)
            ind = range(lo, min(128, lo + 31))
            w.u(len(ind), 5).u(0, 4)
            for i in ind:
                w.u(i % 60 + 1, 6).u(0, 1)
                if t == 1012: w.u(8, 5)
                w.u(5000, 25 if t == 1012 else 24).u(9, 20).u(i, 7)
                if t == 1012: w.u(30, 7).u(100, 8).u(0, 2).u(5, 14).u(6, 20).u(127 - i, 7).u(0, 8)
            add("lock table %d" % t, [(t, w.bytes())])
    for t in (1074, 1076):
        step = 1 if t == 1074 else 64
        for lo in ([0] if t == 1074 else range(0, 1024, 64)):
            ind = list(range(16)) * 4 if t == 1074 else list(range(lo, lo + 64))
            w = g.Bits().u(t, 12).u(1, 12).u(5, 30).u(0, 19)
            for i in range(64): w.u(i < 16, 1)
            for i in range(32): w.u(i < 4, 1)
            w.u((1 << 64) - 1, 64)
            for i in range(16): w.u(70, 8)
            for i in range(16): w.u(i, 10)
            for i in ind: w.u(i, 20 if t == 1076 else 15)
            for i in ind: w.u(i, 24 if t == 1076 else 22)
            for i in ind: w.u(i, 10 if t == 1076 else 4)
            for i in ind: w.u(0, 1)
            for i in ind: w.u(i, 10 if t == 1076 else 6)
            add("lock table %d" % t, [(t, w.bytes())])
    # times at and beyond the limit; too many cells; over-long strings
    for t in g.OBS + g.MSM:
        glo = t in (1010, 1012) or t // 10 == 108
        lim = 86399999 if glo else 604799999
        top = (1 << 27 if glo else 1 << 30) - 1
        mk = (lambda v: g.obs(r, t, 1, v)) if t in g.OBS else (lambda v: g.msm(r, t, (2, 1), v))
        add("%d time limits" % t, [(t, mk(v)) for v in (lim, lim + 1, lim + r.randrange(2, 10**6), top, top - 13999, top - 14000, top - 13998, top - 5)])
    for t in g.MSM:
        add("%d too many cells" % t, [(t, g.msm(r, t, d, dense=0.1)) for d in ((13, 5), (64, 32), (33, 2), (64, 4), (16, 17), (64, 1))])
    for t in (1007, 1008, 1033):
        for n in (33, 34, 64, 255):
            w = g.Bits().u(t, 12).u(9, 12)
            g.string(r, w, n); w.u(1, 8)
            for _ in range(4): g.string(r, w, 2)
            add("%d string of %d" % (t, n), [(t, w.bytes())])
    for v in range(1, 16):
        w = g.Bits().u(4062, 12).u(v, 4).u(1, 16).u(2, 16).u(0, 8)
        add("4062 reserved", [(4062, w.bytes())])
    for v in (1, 2, 3):
        w = g.Bits().u(4075, 12).u(v, 12).u(v, 2).u(0, 6)
        add("4075 reserved", [(4075, w.bytes())])
    gr = ctx.conform(exe, scen, "Trace_RtcmDec", labels=labels)
    ctx.extra["messages_decoded"] = sum(e["rc"] == 0 for x in gr for e in x[1])
    ctx.extra["messages_rejected"] = sum(e["rc"] != 0 for x in gr for e in x[1])
    ctx.samples = [{"scenario": labels[i], "first": str(gr[i][1][0])[:300]} for i in range(0, len(gr), max(1, len(gr) // 4))]
    if not ctx.violations:
        def mut(t):
            next(e for e in t if e["rc"] == 0 and len(e["f"]) > 8)["f"][7][0] ^= 1
            return t
        ctx.self_test("Trace_RtcmDec", next(x[1] for x in gr if x[1][0]["rc"] == 0 and len(x[1][0]["f"]) > 8), mut)
    ctx.assumptions = ["the raw L1 pseudorange 80000h is never sent: the standard gives it no meaning of its own, the library's "
                       "constants call it invalid, and its decoder takes it as a range",
                       "navigation data frames (4075) are handed to the decoder complete: its interface has no length"]
