import novsbp as n
def run(ctx):
    r = ctx.rng
    ctx.model_check("MC_NovLayout", need_actions=("Pick",), workers=1)
    scen, labels = [], []
    def add(label, fr): scen.append(n.script(fr, n.chunks(r, sum(map(len, fr))))); labels.append(label)
    t = lambda: (r.randrange(1, 4000), r.choice((0, 1, n.WEEK - 1, 604799999, r.randrange(n.WEEK), r.randrange(n.WEEK // 1000) * 1000)))
    for k in list(range(0, 64)) + [64, 65, 80, 126, 127, 160]:
        if ctx.quick and k % 7 not in (0, 1) and k < 60: continue
        add("%d records" % k, [n.frame(r, n.RANGECMP, n.rangecmp(r, k, r.choice((0, .2))), *t())])
    for k in range(60 if ctx.quick else 800):
        add("records", [n.frame(r, n.RANGECMP, n.rangecmp(r, r.randrange(1, 20)), *t()) for _ in range(3)])
    for k in (1, 2, 13, 14, 15, 27, 28, 29, 42, 43, 56, 70, 128, 160):
        sets = [(), (0,), (k - 1,), range(k), range(0, k, 2), range(0, k - 1), range(1, k)]
        sets += [(j,) for b in range(0, k, 14) for j in (b - 1, b, b + 1) if 0 <= j < k] + [(13, 14), (12, 13), (13, 27), (14, 28)]
        sets += [r.sample(range(k), r.randrange(k)) for _ in range(3 if ctx.quick else 30)]
        for s in sets if k < 43 or not ctx.quick else r.sample(sets, 6):
            add("%d records, %d not expressible" % (k, len(s)), [n.frame(r, n.RANGECMP, n.pattern(r, k, set(s)), *t())])
    for s in range(8):
        for sig in range(32):
            import struct
            rec = []
            for prn in (1, 14, 32, 37, 38, 50, 61, 65):
                v = int.from_bytes(n.record(r, 0, 0), "little") & ~(7 << 16 | 31 << 21 | 255 << 136) | s << 16 | sig << 21 | prn << 136
                rec.append(v.to_bytes(24, "little"))
            add("system %d signal %d" % (s, sig), [n.frame(r, n.RANGECMP, struct.pack("<I", len(rec)) + b"".join(rec), 2100, 1000)])
    for k in range(60 if ctx.quick else 800):
        add("ephemerides", [n.frame(r, n.GPSEPHEM, n.gpsephem(r, r.random() < .15), *t()) for _ in range(4)])
    for k in range(20 if ctx.quick else 200):
        m = [(n.GPSEPHEM, n.gpsephem(r)) if r.random() < .4 else (n.RANGECMP, n.rangecmp(r, r.randrange(30))) for _ in range(5)]
        add("mixed", [n.frame(r, a, b, *t()) for a, b in m])
    gr = n.check(ctx, scen, labels, {74: 150, 138: 100})
    if not ctx.violations:
        n.corrupt(ctx, gr, 74, 15, 0); n.corrupt(ctx, gr, 74, 10, 4); n.corrupt(ctx, gr, 138, 20, 0); n.corrupt(ctx, gr, 138, 0, drop=True)
    ctx.assumptions = n.ASSUME + ["a receiver that says the parity is known has phase lock"]
