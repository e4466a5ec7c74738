import r2sx as e
def run(ctx):
    r, n = ctx.rng, 16 if ctx.quick else 90
    scen, labels = [], []
    for t in [1002, 1004, 1010, 1012] + e.MSMT:
        for i in range(n): scen.append(e.measurement(r, t, i % 3 == 0)); labels.append("one %d" % t)
    for i in range(1 if ctx.quick else 8):
        for s, l in e.fixed_values(r): scen.append(s); labels.append(l)
    for b in e.ep(ctx, e.EK, 6, sim=40 if ctx.quick else 600): scen.append(e.escript(r, b, opts=True)); labels.append("options " + e.label(b))
    for s, l in e.carries(r, 2 if ctx.quick else 12): scen.append(s); labels.append(l)
    g = e.check(ctx, scen, labels, {"Obs": 300}, reals=0 if ctx.quick else 5)
    if not ctx.violations:
        for f in ((5, 7, 10) if ctx.quick else range(5, 13)): e.corrupt(ctx, g, "Obs", f, least=12)
    ctx.assumptions = e.ASSUME + ["every GLONASS satellite information field is a frequency channel or 15 for unknown in MSM 5 and 7",
                                  "rough ranges are plausible: the pseudorange is positive"]
