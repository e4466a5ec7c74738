import rtcmgen as g, vf
from p03 import SRCS

def run(ctx):
    r = ctx.rng
    ctx.model_check("MC_RtcmLayout", need_actions=("Pick",), workers=1)
    exe = ctx.build("rtcm_drv", SRCS())
    scen, labels = [], []
    def add(label, msgs):
        scen.append("".join("E %d %s\n" % (t, " ".join(str(x) for x in f)) for t, f in msgs) + ".\n")
        labels.append(label)
    k = 1 if ctx.quick else 12
    for t in g.OBS:
        for _ in range(14 * k): add("%d" % t, [(t, g.enc_obs(r, t)) for _ in range(2)])
        for n in (30, 31, 32): add("%d with %d satellites" % (t, n), [(t, g.enc_obs(r, t, n))])
    for t in g.ENC_MSM:
        for _ in range(8 * k): add("%d" % t, [(t, g.enc_msm(r, t))])
    for t in g.ENC_OTHER:
        for _ in range(4 * k): add("%d" % t, [(t, g.enc_other(r, t)) for _ in range(4)])
    for m in range(16):
        add("1230 mask", [(1230, [5, b, m, -3, 300, -32768, 32767]) for b in (0, 1)])
    gr = ctx.conform(exe, scen, "Trace_RtcmDec", labels=labels)
    ctx.extra["messages_encoded"] = sum(len(x[1]) for x in gr)
    ctx.samples = [{"scenario": labels[i], "first": str(gr[i][1][0])[:300]} for i in range(0, len(gr), max(1, len(gr) // 4))]
    if not ctx.violations:
        def mut(t):
            e = next(e for e in t if e["t"] == 1004 and len(e["b"]) > 12)
            e["b"][9] ^= 2
            return t
        ctx.self_test("Trace_RtcmDec", next(x[1] for x in gr if any(e["t"] == 1004 and len(e["b"]) > 12 for e in x[1])), mut)
    ctx.assumptions = ["fields given to the encoder fit the message (a time of week below a week, ranges below 254 ms, "
                       "a CNR below 64 dB), except where the encoder must clamp or mark them invalid"]
