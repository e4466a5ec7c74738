import r2sx as e, p01, vf
def run(ctx):
    r, n = ctx.rng, 1 if ctx.quick else 12
    ctx.model_check("MC_RtcmFraming", cfg_text=open(vf.SPEC + "/MC_RtcmFraming.cfg").read().replace(
        "MaxLen = 6", "MaxLen = %d" % (6 if ctx.quick else 8)), timeout=800, need_actions=("ReadSome", "ReadEnd", "Deliver", "Resync"))
    gen = lambda kinds, k, sim: ctx.generate("FrameGen", p01.gen_cfg(kinds, e.FC, e.ENDS, k), **({"simulate": sim, "depth": k + 2} if sim else {}))
    beh = gen(e.FK, 1, 0) + gen(e.FK, 7, 250 * n) + gen(["pos", "badsum", "syncs", "nested", "truncated", "hugelen"], 5, 120 * n)
    if not ctx.quick: beh += gen(e.FK, 25, 300)
    scen, labels = [], []
    for b in [{"items": [], "ending": "eof"}, {"items": [], "ending": "error"}] + beh:
        scen.append(e.fscript(r, b)); labels.append(e.label(b))
    g = e.check(ctx, scen, labels, {"Obs": 100, "BasePosEcef": 50, "Log": 20}, reals=1 if ctx.quick else 12)
    if not ctx.violations:
        t = next(t for t in g if sum(1 for v in t[1] if v.get("outs")) >= 2)[1]
        ctx.self_test("Trace_Rtcm2Sbp", t, lambda v: [v[0]] + [c for i, c in enumerate(v[1:]) if i != next(j for j, d in enumerate(v[1:]) if d.get("outs"))])
        e.forget(ctx, g, "BasePosEcef")
        e.corrupt(ctx, g, "BasePosEcef", 1)
    ctx.assumptions = e.ASSUME + ["the byte source signals the end of input by returning 0 or a negative value"]
