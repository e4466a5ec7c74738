import novsbp as n
def run(ctx):
    r = ctx.rng
    ctx.model_check("MC_NovSbp", cfg_text=open(__import__("vf").SPEC + "/MC_NovSbp.cfg").read().replace("Depth = 4", "Depth = %d" % (4 if ctx.quick else 6))
                    .replace('"pos", "none", "vel", "att", "imu"', '"imu"'), coverage=False)
    scen, labels = [], []
    def add(label, s): scen.append(s); labels.append(label)
    for b in n.histories(ctx, 7, 120 if ctx.quick else 1500, ("imu", "imu", "bad", "odd", "pos")):
        add(n.label(b), n.history(r, b))
    for u in n.UNITS + (0, 2, 3, 255):     # a run of samples at the unit's pace, around a week's end or not
        for k in range(3 if ctx.quick else 40):
            wn = r.randrange(1, 4000)
            dt = r.choice((5, 8, 10, 10, 20, 1000, 1, 40000))
            ms = r.choice((n.WEEK - 3 * dt, n.WEEK - 3 * dt - 1, n.WEEK - 1003, r.randrange(n.WEEK - 50 * dt), 0, dt))
            fr, prev = [], None
            for _ in range(8):
                wn += ms // n.WEEK; ms %= n.WEEK
                fr.append(n.frame(r, n.RAWIMUSX, n.rawimu(r, u, pick_info(r), prev), wn, ms))
                prev = r.choice((dt, dt, dt, dt, 2 * dt, 1000, 0)); ms += prev
                prev = prev or None
            add("unit %d" % u, n.script(fr, n.chunks(r, sum(map(len, fr)))))
    for k in range(20 if ctx.quick else 200):   # gaps of any length
        wn, ms = r.randrange(1, 4000), r.randrange(n.WEEK)
        fr = []
        for _ in range(8):
            fr.append(n.frame(r, n.RAWIMUSX, n.rawimu(r), wn, ms))
            ms += r.choice((8, 990, 999, 1000, 1001, 60000, 86400000, n.WEEK - 999, n.WEEK - 1001, 2 * n.WEEK, -500, -n.WEEK + 8)); wn += ms // n.WEEK; ms %= n.WEEK
            wn = max(1, wn)
        add("gaps", n.script(fr, n.chunks(r, sum(map(len, fr)))))
    gr = n.check(ctx, scen, labels, {546: 150, 2304: 150, 2305: 80})
    if not ctx.violations:
        n.corrupt(ctx, gr, 546, 10, 5); n.corrupt(ctx, gr, 2304, 6, 4); n.corrupt(ctx, gr, 2305, 0, drop=True); n.corrupt(ctx, gr, 2304, 0, drop=True)
    ctx.assumptions = n.ASSUME
def pick_info(r): return r.choice((0, 4, 4, 4, 0xfc))
