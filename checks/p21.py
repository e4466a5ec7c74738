import sbp2rtcm as q, vf
def run(ctx):
    r, n = ctx.rng, 1 if ctx.quick else 10
    base = open(vf.SPEC + "/MC_S2REpoch.cfg").read()
    ctx.model_check("MC_S2REpoch", cfg_text=base if ctx.quick else base.replace("Times = {0, 1}", "Times = {0, 1, 10}"), coverage=False, timeout=850)
    ctx.model_check("MC_S2REpoch", cfg_text=base.replace("Legacy = FALSE", "Legacy = TRUE"), coverage=False, timeout=850)
    if not ctx.quick:
        ctx.model_check("MC_S2REpoch", cfg_text=base.replace("Depth = 3", "Depth = 4"), coverage=False, timeout=850)
    scen, labels = [], []
    def add(l, mode, steps): scen.append(q.scen(mode, steps)); labels.append(l)
    for b in q.epochs(ctx, 8, 60 * n): add("epochs " + q.blabel(b), "api", q.epoch_script(r, b, r.choice((4, 5))))
    for b in q.epochs(ctx, 8, 50 * n, orderly=False, times=(0, 1, 2, 3), most=(0, 2)): add("any order " + q.blabel(b), "api", q.epoch_script(r, b, r.choice((4, 5)), leap=r.choice((18, 18, 18, None))))
    one = [{"s": 1, "t": 0, "size": 1, "cnt": 1, "n": None}]
    for c in q.SIG:         # measurements of one system, with extreme values
        for k in range(12 * n):
            b = [dict(one[0], n=r.choice((1, 2, 4, 8)), t=i) for i in range(3)]
            add("%s measurements" % c, "api", q.epoch_script(r, b, 5 if k % 3 else 4, weird=0.4, systems=[c], leap=None if k == 7 else r.choice((17, 18, 18, 19, 0, -3))))
    for k in range(6 * n):  # epochs with more cells than a message has, and more observations than are kept
        b = [{"s": 1, "t": 0, "size": m, "cnt": i + 1, "n": 14} for m in (r.choice((3, 6, 14, 15, 16)),) for i in range(min(m, 15))]
        b += [{"s": 1, "t": 1, "size": 1, "cnt": 1, "n": 3}]
        add("large epoch of %d" % b[0]["size"], "api", q.epoch_script(r, b, r.choice((4, 5)), systems=r.choice((None, None, ["GPS"], ["GPS", "GAL"]))))
    for name in ("/rtcm3tosbp/test/data/piksi-gps-glo.sbp", "/gnss_converters/test/data/nmea.sbp"):
        ms = q.recorded(ctx, name, (74, 139))
        for k in range(2 if ctx.quick else 12):
            a = r.randrange(max(1, len(ms) - 30))
            add("%s from %d" % (name, a), "api", q.settings(r.choice((4, 5)), 18, q.fcns(r)) + [q.S(*m) for m in ms[a:a + 24]])
    g = q.check(ctx, scen, labels, dict([(b + k, 6) for b in (1070, 1080, 1090, 1100, 1110, 1120) for k in (4, 5)]))
    if not ctx.violations:
        q.corrupt(ctx, g, 1075, q.flip(-1, 7)); q.corrupt(ctx, g, 1075, q.flip(5, 2)); q.corrupt(ctx, g, 1094, q.flip(3, 6)); q.corrupt(ctx, g, 1085, q.drop)
    ctx.assumptions = q.ASSUME
