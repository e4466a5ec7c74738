import sbp2rtcm as q, vf
def run(ctx):
    r, n = ctx.rng, 1 if ctx.quick else 14
    base = open(vf.SPEC + "/MC_S2REpoch.cfg").read().replace("Legacy = FALSE", "Legacy = TRUE")
    ctx.model_check("MC_S2REpoch", cfg_text=base if ctx.quick else base.replace("Depth = 3", "Depth = 4"), coverage=False, timeout=850)
    scen, labels = [], []
    def add(l, mode, steps): scen.append(q.scen(mode, steps)); labels.append(l)
    mode = lambda: r.choice((0, 1, 2, 3, 6, 7))
    for b in q.epochs(ctx, 8, 60 * n): add("epochs " + q.blabel(b), "api", q.epoch_script(r, b, mode(), legacy=True))
    for b in q.epochs(ctx, 8, 40 * n, orderly=False, times=(0, 1, 2, 3), most=(0, 2)): add("any order " + q.blabel(b), "api", q.epoch_script(r, b, mode(), legacy=True, leap=r.choice((18, 18, 18, None))))
    for c in ("GPS", "GLO"):
        for k in range(40 * n):
            b = [{"s": 1, "size": 1, "cnt": 1, "n": r.choice((1, 2, 4, 8)), "t": i} for i in range(4)]
            add("%s measurements" % c, "api", q.epoch_script(r, b, 0, weird=0.4, legacy=True, systems=[c], leap=None if k == 7 else r.choice((17, 18, 18, 19, 0, -3))))
    for k in range(6 * n):  # more satellites than a message has, and more observations than are kept
        m = r.choice((3, 6, 14, 15))
        b = [{"s": 1, "t": 0, "size": m, "cnt": i + 1, "n": 14} for i in range(m)] + [{"s": 1, "t": 1, "size": 1, "cnt": 1, "n": 3}]
        add("large epoch of %d" % m, "api", q.epoch_script(r, b, 0, legacy=True, systems=r.choice((None, ["GPS"], ["GPS", "GLO"]))))
    for name in ("/rtcm3tosbp/test/data/piksi-gps-glo.sbp", "/gnss_converters/test/data/nmea.sbp"):
        ms = q.recorded(ctx, name, (74, 139))
        for k in range(2 if ctx.quick else 12):
            a = r.randrange(max(1, len(ms) - 30))
            add("%s from %d" % (name, a), "api", q.settings(0, 18, q.fcns(r)) + [q.S(*m) for m in ms[a:a + 24]])
    for k in range(8 * n):  # the mode changed with an epoch half heard
        b = q.epochs_of(r, 10); s = q.epoch_script(r, b, 5, legacy=True)
        for _ in range(3): s.insert(r.randrange(len(s) - 10, len(s)), "M:%d" % r.choice((0, 4, 5, 3)))
        add("changing modes", "api", s)
    g = q.check(ctx, scen, labels, {1004: 100, 1012: 100})
    if not ctx.violations:
        q.corrupt(ctx, g, 1004, q.flip(12, 3)); q.corrupt(ctx, g, 1004, q.flip(5, 2)); q.corrupt(ctx, g, 1012, q.flip(9, 2)); q.corrupt(ctx, g, 1012, q.drop)
    ctx.assumptions = q.ASSUME + ["in legacy messages: pseudoranges below 76,000 km and phases within 40 million cycles of them"]
