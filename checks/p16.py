import r2sx as e, vf
def run(ctx):
    r, n = ctx.rng, 22 if ctx.quick else 400
    ctx.model_check("MC_R2STime", cfg_text=open(vf.SPEC + "/MC_R2STime.cfg").read() if ctx.quick else
                    open(vf.SPEC + "/MC_R2STime.cfg").read().replace("Grid = 3600000", "Grid = 900000").replace("Far = 83", "Far = 335"), need_actions=("Next",), timeout=850)
    scen, labels = [], []
    for k in e.TIMED:
        for i in range(n): scen.append(e.time_scen(r, k)); labels.append("time of " + k)
    for b in e.ep(ctx, e.EK, 8, sim=40 if ctx.quick else 600): scen.append(e.escript(r, b, known=r.choice(("eph", "obs", "none")))); labels.append(e.label(b))
    for s, l in e.week_edges(r): scen.append(s); labels.append(l)
    g = e.check(ctx, scen, labels, {"Obs": 200, "EphGps": 20, "EphGal": 10, "EphBds": 10, "EphGlo": 10, "SsrCodeBiases": 20}, reals=0 if ctx.quick else 5)
    if not ctx.violations:
        e.corrupt(ctx, g, "Obs", 0); e.corrupt(ctx, g, "Obs", 1)
    ctx.assumptions = e.ASSUME + ["the time known beforehand is nearer than half a week, and for times of day half a day, to the truth"]
