import nmea as n
ONLY = " ".join("r%d,1" % k for k in range(11) if n.NAMES[k] in ("GSA", "GSV"))
def run(ctx):
    r, q = ctx.rng, ctx.quick
    n.models(ctx)
    scen, labels = [], []
    def add(label, mode, ops, **k): scen.append(n.line(mode, ops, ONLY, **k)); labels.append(label)
    def six(wn, tow):
        b = n.solution(r, wn, tow) + n.extras(r, tow)
        r.shuffle(b)
        return b
    for log in n.histories(ctx, "G", True, 30 if q else 300, 30): add("tidy history", "G", n.concrete(r, "G", log))
    for log in n.histories(ctx, "B", False, 60 if q else 600, 40): add("untidy history", "B", n.concrete(r, "B", log))
    for k in range(200 if q else 2500):
        t, out = 100 * r.randrange(1, 6000000), []
        for j in range(4):
            seen = n.azel(r)
            view = [n.msg(n.AZEL, *n.flat(seen)), n.msg(n.MEAS, *n.flat(n.meas(r, seen)))]
            if r.random() < .1: view = view[:1]
            lists = [view, n.observations(r, 2000, t + 100 * j), six(2000, t + 100 * j)]
            while any(lists):
                l = r.choice([y for y in lists if y]); out.append(l.pop(0))
        add("satellites", r.choice("GGB"), out)
    for sys in range(6):                    # of one system; one more at a time
        for top in (5, 13, 14):
            out = []
            for k in range(top + 1):
                rows = [n.sat(r, sys) for _ in range(k)]
                rows = [x for i, x in enumerate(rows) if x[0] not in [y[0] for y in rows[:i]]]
                tow = 100000 + 100 * k
                out += [n.msg(n.AZEL, *n.flat((s, c, r.randrange(180), r.randrange(91)) for s, c in rows)), n.msg(n.MEAS, *n.flat((s, c, r.randrange(256)) for s, c in rows if r.random() < .8))]
                out += ["o2000,%d,16" % tow + "".join(",%d,%d,15" % x for x in rows)] + six(2000, tow)
            add("of system %d" % sys, "G", out)
    for c in range(70):                     # every signal
        tow = 5000 + 100 * c
        s = r.randrange(120, 139) if c in n.SBAS_C + (42, 43, 60) else 193 + r.randrange(10) if c == 62 or 31 <= c <= 40 else r.randrange(1, 28)
        out = [n.msg(n.AZEL, s, c, 10, 20), n.msg(n.MEAS, s, c, 150), "o2000,%d,16,%d,%d,15" % (tow, s, c)] + six(2000, tow)
        add("signal %d" % c, "G", out)
    for l in n.segments(r, 3 if q else 20, 500, ONLY): scen.append(l); labels.append("recorded")
    gr = n.check(ctx, "sats", scen, labels, {"GSA": 1500, "GSV": 3000})
    if not ctx.violations:
        for i in (3, 15, 17): n.corrupt(ctx, gr, "sats", "GSA", n.last_digit(i, 3))
        for i in (2, 4, 5, 6, 7): n.corrupt(ctx, gr, "sats", "GSV", n.last_digit(i, 3))
        n.corrupt(ctx, gr, "sats", "GSA", lambda f: ["GN" + f[0][2:]] + f[1:] if f[0][:2] != "GN" else None)
        n.corrupt(ctx, gr, "sats", "GSV", lambda f: f[:-4] if len(f) > 8 else None)
    ctx.assumptions = n.ASSUME
