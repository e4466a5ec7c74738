import rtcmgen as g, vf
from p03 import SRCS

def run(ctx):
    r = ctx.rng
    ctx.model_check("MC_RtcmLayout", need_actions=("Pick",), workers=1)
    exe = ctx.build("rtcm_drv", SRCS())
    scen, labels = [], []
    def add(label, lines):
        scen.append("".join(lines) + ".\n"); labels.append(label)
    D = lambda t, b: "D %d %s\n" % (t, vf.hexs(b))
    k = 1 if ctx.quick else 12
    for t in g.EPHW:
        for _ in range(6 * k): add("%d random" % t, [D(t, g.eph(r, t)) for _ in range(6)])
        b = g.eph(r, t)
        add("%d truncated" % t, [D(t, b[:n]) for n in sorted(r.sample(range(len(b)), 20)) + [len(b) - 1, len(b)]])
        o = r.choice([x for x in g.EPHW if x != t])
        m = []
        for i in range(12):
            c = bytearray(b); c[i // 8] ^= 0x80 >> (i % 8); m.append(D(t, bytes(c)))
        add("%d number" % t, m + [D(t, g.eph(r, o) + bytes(30))])
        n = sum(g.EPHW[t]) + 12
        m = []
        for i in range(12, n):
            w = g.Bits().u(t, 12).u(0, n - 12)
            if t == 1042: w.b[12] = 1
            w.b[i] ^= 1
            m.append(D(t, w.bytes()))
        for j in range(0, len(m), 60): add("%d single bits" % t, m[j:j + 60])
    for sat in range(0, 9):
        b = bytearray(g.eph(r, 1042)); b[1] = b[1] & 0xF0 | sat >> 2; b[2] = b[2] & 0x3F | (sat & 3) << 6
        add("1042 satellite %d" % sat, [D(1042, bytes(b))])
    for t in (1019, 1020, 1042, 1045, 1046):
        for _ in range(8 * k):
            add("%d encode" % t, ["E %d %s\n" % (t, " ".join(str(x) for x in g.enc_eph(r, t))) for _ in range(4)])
    gr = ctx.conform(exe, scen, "Trace_RtcmDec", labels=labels)
    ev = [e for x in gr for e in x[1]]
    ctx.extra["decoded"] = sum(e["e"] == "Dec" and e["rc"] == 0 for e in ev)
    ctx.extra["rejected"] = sum(e["e"] == "Dec" and e["rc"] != 0 for e in ev)
    ctx.extra["encoded"] = sum(e["e"] == "Enc" for e in ev)
    ctx.samples = [{"scenario": labels[i], "first": str(gr[i][1][0])[:300]} for i in range(0, len(gr), max(1, len(gr) // 4))]
    if not ctx.violations:
        def mut(t):
            t[0]["f"][5][0] ^= 1
            return t
        ctx.self_test("Trace_RtcmDec", gr[0][1], mut)
