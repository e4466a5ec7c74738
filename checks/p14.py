import r2sx as e, vf
def run(ctx):
    r, n = ctx.rng, 1 if ctx.quick else 6
    ctx.model_check("MC_R2SEpoch", cfg_text=open(vf.SPEC + "/MC_R2SEpoch.cfg").read().replace("Depth = 4", "Depth = %d" % (4 if ctx.quick else 5)),
                    need_actions=("RecvLegacy", "RecvMsm", "RecvEnd", "Tick"), timeout=850)
    beh = e.ep(ctx, e.EK, 1) + e.ep(ctx, e.EK, 10, sim=160 * n)
    obs = ["gpsM", "gpsE", "gloM", "gloE", "msmM", "msmE"]
    beh += e.ep(ctx, obs, 12, sim=60 * n, steps=["0", "1000"]) + e.ep(ctx, ["big", "bigE", "msmM", "gpsE", "empty", "emptyE"], 7, sim=40 * n, steps=["0", "0", "1000"])
    if not ctx.quick: beh += e.ep(ctx, e.EK, 40, sim=80)
    scen, labels = [], []
    for b in beh: scen.append(e.escript(r, b)); labels.append(e.label(b))
    for s, l in e.two_stations(r): scen.append(s); labels.append(l)
    g = e.check(ctx, scen, labels, {"Obs": 500, "Log": 5}, reals=1 if ctx.quick else 15, size=6000 if ctx.quick else 20000)
    if not ctx.violations:
        e.corrupt(ctx, g, "Obs", 3); e.corrupt(ctx, g, "Obs", 1); e.forget(ctx, g, "Obs")
    ctx.assumptions = e.ASSUME
