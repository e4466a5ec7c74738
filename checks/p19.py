import r2sx as e, vf
def run(ctx):
    r, n = ctx.rng, 1 if ctx.quick else 12
    ctx.model_check("MC_R2SSsr", cfg_text=open(vf.SPEC + "/MC_R2SSsr.cfg").read().replace("Depth = 3", "Depth = %d" % (3 if ctx.quick else 4)), need_actions=("Recv",), timeout=850)
    beh = e.ep(ctx, e.SK, 1, steps=["0", "1000"]) * 3 + e.ep(ctx, e.SK, 9, sim=110 * n, steps=["0", "0", "0", "1000"])
    beh += e.ep(ctx, ["orbit", "clock", "clock2", "orbit2", "otherorbit", "otherclock"], 6, sim=80 * n, steps=["0", "0", "1000"])
    scen, labels = [], []
    for b in beh: scen.append(e.ssr_script(r, b)); labels.append(e.label(b))
    g = e.check(ctx, scen, labels, {"SsrOrbitClock": 150, "SsrCodeBiases": 50, "SsrPhaseBiases": 50}, reals=0 if ctx.quick else 5)
    if not ctx.violations:
        e.corrupt(ctx, g, "SsrOrbitClock", 7); e.corrupt(ctx, g, "SsrPhaseBiases", 4); e.forget(ctx, g, "SsrOrbitClock")
    ctx.assumptions = e.ASSUME
