import rtcmgen as g, vf
from p03 import SRCS

def run(ctx):
    r = ctx.rng
    ctx.model_check("MC_RtcmLayout", need_actions=("Pick",), workers=1)
    exe = ctx.build("rtcm_drv", SRCS())
    scen, labels = [], []
    def add(label, msgs):
        scen.append("".join("D %d %s\n" % (t, vf.hexs(b)) for t, b in msgs) + ".\n"); labels.append(label)
    k = 1 if ctx.quick else 12
    for t in g.SSR:
        for _ in range(3 * k): add("%d random" % t, [(t, g.ssr(r, t)) for _ in range(2)])
        b = g.ssr(r, t, 2)
        if len(b) > 150: b = min((g.ssr(r, t, 2) for _ in range(12)), key=len)
        add("%d truncated" % t, [(t, b[:n]) for n in sorted(set([0, 1, 2, 5, 8] + [r.randrange(len(b)) for _ in range(12)])) + [len(b) - 1, len(b)]])
        o = r.choice([x for x in g.SSR if x != t] + [1061, 1062, 1264, 1271, 1019, 1074])
        m = []
        for i in range(12):
            c = bytearray(b); c[i // 8] ^= 0x80 >> (i % 8); m.append((t, bytes(c) + bytes(40)))
        m.append((t, g.Bits().u(o, 12).bytes() + bytes(60)))
        # the combined decoder is only ever reached by its own numbers; what it does with the number
        # of an orbit-only message (it takes it) has no observable meaning
        num = lambda c: c[0] << 4 | c[1] >> 4
        m = [x for x in m if not (g.ssr_kind(t) == "both" and num(x[1]) in g.SSR and g.ssr_kind(num(x[1])) == "orbit")]
        add("%d number" % t, m)
        n = 0
        base = g.ssr(r, t, 1)
        hb = len(base)
        # single bits of a message with one satellite (and one bias)
        kd = g.ssr_kind(t)
        hdr = 12 + (17 if g.ssr_sys(t) == "GLO" else 20) + 5 + (kd in ("orbit", "both")) + 24 + (2 if kd == "phase" else 0) + 6
        sb = {"GLO": 5, "QZS": 4}.get(g.ssr_sys(t), 6)
        io = {"GAL": 10, "BDS": 18, "SBAS": 33}.get(g.ssr_sys(t), 8)
        body = {"orbit": io + 121, "clock": 70, "both": io + 191, "code": 24, "phase": 54}[kd]
        m = []
        for i in range(12, hdr + sb + body):
            w = g.Bits().u(t, 12).u(0, hdr - 18).u(1, 6).u(0, sb + body)
            if kd in ("code", "phase"): w.b[hdr + sb + 4] = 1
            if hdr - 6 <= i < hdr or kd in ("code", "phase") and hdr + sb <= i < hdr + sb + 5: continue
            w.b[i] ^= 1
            m.append((t, w.bytes()))
        for j in range(0, len(m), 70): add("%d single bits" % t, m[j:j + 70])
    gr = ctx.conform(exe, scen, "Trace_RtcmDec", labels=labels)
    ctx.extra["messages_decoded"] = sum(e["rc"] == 0 for x in gr for e in x[1])
    ctx.extra["messages_rejected"] = sum(e["rc"] != 0 for x in gr for e in x[1])
    ctx.samples = [{"scenario": labels[i], "first": str(gr[i][1][0])[:300]} for i in range(0, len(gr), max(1, len(gr) // 4))]
    if not ctx.violations:
        def mut(t):
            e = next(e for e in t if e["rc"] == 0)
            e["f"][6][0] ^= 1
            return t
        ctx.self_test("Trace_RtcmDec", gr[0][1], mut)
