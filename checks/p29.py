import nmea as n
TEXT = ("GGA", "RMC", "VTG", "HDT", "GLL", "ZDA", "GST", "PUBX", "THS")
ONLY = " ".join("r%d,1" % k for k in range(11) if n.NAMES[k] not in ("GSA", "GSV"))
def run(ctx):
    r, q = ctx.rng, ctx.quick
    n.models(ctx)
    scen, labels = [], []
    def add(label, mode, ops, **k): scen.append(n.line(mode, ops, ONLY, **k)); labels.append(label)
    for mode in "GBF":
        for log in n.histories(ctx, mode, True, 30 if q else 300, 30): add("tidy history", mode, n.concrete(r, mode, log))
        for log in n.histories(ctx, mode, False, 60 if q else 600, 40): add("untidy history", mode, n.concrete(r, mode, log))
    for k in range(150 if q else 2000):
        mode = r.choice("GGBF")
        t = r.choice((100 * r.randrange(1, 6000000), r.randrange(1, n.WEEK - 1000)))
        out = n.settings(r)
        for j in range(5): out += n.epoch(r, mode, 2000, t + 100 * j)
        add("epochs", mode, out)
    # the course when it slows down, stops, and goes again
    for k in range(60 if q else 600):
        mode, t, still, cog = r.choice("GGBF"), 100 * r.randrange(1, 6000000), r.choice((0, 20, 150, 500, 997)), r.choice((0, 50, 333, 997))
        # any direction, but often within a tenth of a degree of an axis
        def toward():
            if r.random() < .6: return r.randrange(-1500, 1500), r.randrange(-1500, 1500)
            a = r.choice((-1, 1)) * r.randrange(20000, 100000), r.choice((-1, -1, 0, 1)) * r.randrange(60)
            return a if r.random() < .7 else a[::-1]
        out, a = ["c%d" % cog, "u%d" % still], toward()
        for j in range(8):
            f = r.choice((0, .01, .1, .3, .6, 1, 1)) if abs(a[0]) < 2000 and abs(a[1]) < 2000 else r.choice((0, .002, 1, 1))
            v = (int(a[0] * f), int(a[1] * f), r.randrange(-50, 50))
            if r.random() < .3: a = toward()
            if v[0] ** 2 + v[1] ** 2 in (still ** 2, cog ** 2): v = (v[0], v[1] + 1, v[2])
            rates = None
            if r.random() < .3: out.append("r%d,%d" % (r.choice((1, 2, 9)), r.choice((0, 1, 1, 2))))
            out += n.epoch(r, mode, 2000, t + 100 * j, r.random() < .3, v)
        add("course", mode, out)
    for k in range(10 if q else 60):        # the longest sentences
        t, out = 604700000 + k, ["b65535"]
        for j in range(4):
            tow = t + 100 * j
            for i in (0, 11):
                p = n.msg(n.POS + i, tow, n.f64(-89.99999999), n.f64(-179.99999999), n.f64(-1e6 + r.uniform(0, 1)), *[n.f32(x) for x in (240000.1, r.choice((0, 1e5, -2e5)), 249999.9, 249999.7)], 255, r.choice((2, 3, 4)))
                b = [n.msg(n.GPS_TIME + i, tow, 2000), n.utc(r, n.UTC_TIME + i, tow, True), p, n.msg(n.VEL + i, tow, -4000000 + j, 4000000 - k, 3999999, 1)]
                out += ([] if i else [n.msg(n.GROUP)]) + b + [n.msg(n.DOPS, tow, 65535, 65535, 65535, 65535, 1), n.msg(n.AGE, tow, 65534), n.msg(n.HDG, tow, 359990, 4)] + ([] if i else [n.msg(n.META, tow, 65535, 65535, 65534)])
            out += n.observations(r, 2000, tow, 20, 0)
        add("long values", r.choice("GBF"), out)
    for l in n.segments(r, 3 if q else 20, 500, ONLY): scen.append(l); labels.append("recorded")
    gr = n.check(ctx, "text", scen, labels, {k: 300 for k in TEXT})
    if not ctx.violations:
        for k, i in (("GGA", 8), ("RMC", 7), ("RMC", 9), ("PUBX", 11), ("THS", 1), ("ZDA", 4)): n.corrupt(ctx, gr, "text", k, n.last_digit(i, 3))
        for i in (2, 4): n.corrupt(ctx, gr, "text", "GGA", n.last_digit(i, 3, 2))
        for i in (3, 6, 7, 8): n.corrupt(ctx, gr, "text", "GST", n.first_digit(i))
        n.corrupt(ctx, gr, "text", "GST", lambda f: f[:5] + [str(float(f[5]) + 20)] + f[6:] if len(f) > 5 and f[5] and float(f[3]) > 2 * float(f[4]) else None)
        n.corrupt(ctx, gr, "text", "GST", lambda f: f[:4] + [str(float(f[4]) * .8)[:8].ljust(8, "0")] + f[5:] if len(f) > 5 and f[4] and float(f[4]) > .3 * float(f[3]) > .1 else None)
        n.corrupt(ctx, gr, "text", "GLL", lambda f: f[:2] + ["S" if f[2] == "N" else "N"] + f[3:] if len(f) > 2 and f[1] > "0001" and f[2] else None)
        n.corrupt(ctx, gr, "text", "VTG", lambda f: f[:-1])
    ctx.assumptions = n.ASSUME
