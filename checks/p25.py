import novsbp as n
def run(ctx):
    r = ctx.rng
    ctx.model_check("MC_NovSbp", cfg_text=open(__import__("vf").SPEC + "/MC_NovSbp.cfg").read().replace("Depth = 4", "Depth = %d" % (3 if ctx.quick else 4)), coverage=False)
    scen, labels = [], []
    def add(label, s): scen.append(s); labels.append(label)
    for b in n.histories(ctx, 8, 150 if ctx.quick else 1500, ("pos", "none", "vel", "att", "imu", "pos", "vel")):
        add(n.label(b), n.history(r, b))
    for k in range(150 if ctx.quick else 1500):
        wn, ms = r.randrange(1, 4000), r.choice((0, n.WEEK - 300, r.randrange(n.WEEK)))
        fr = []
        for _ in range(10):
            m = r.choice((n.BESTPOS, n.BESTVEL, n.INSATT, n.BESTPOS, n.BESTVEL, n.INSATT, n.GLOEPH))
            b = {n.BESTPOS: n.bestpos, n.BESTVEL: n.bestvel, n.INSATT: n.insatt, n.GLOEPH: n.gloeph}[m](r)
            fr.append(n.frame(r, m, b, wn, ms))
            if r.random() < .5:
                ms += r.choice((100, 200, 1000, 1, 1, 2, 1 << r.randrange(20))); wn += ms // n.WEEK; ms %= n.WEEK
        add("random logs", n.script(fr, n.chunks(r, sum(map(len, fr)))))
    for k in range(40 if ctx.quick else 400):     # a velocity around a position in time
        ms, d = r.randrange(1 << 20, n.WEEK), r.choice((0, 1, -1, 2, 10, 50, 1 << r.randrange(20), -(1 << r.randrange(20))))
        fr = [n.frame(r, n.BESTPOS, n.bestpos(r, r.choice((16, 50, 56))), 2000, ms)]
        fr += [n.frame(r, n.BESTVEL, n.bestvel(r), 2000, m % n.WEEK) for m in (ms + d, ms)]
        add("velocity %d ms after" % d, n.script(fr))
    for f in n.FIXES:
        add("fix %d" % f, n.script([n.frame(r, n.BESTPOS, n.bestpos(r, f), 2000, 5000), n.frame(r, n.BESTVEL, n.bestvel(r), 2000, 5000), n.frame(r, n.BESTVEL, n.bestvel(r), 2000, 6000)]))
    gr = n.check(ctx, scen, labels, {258: 100, 522: 100, 526: 100, 545: 50})
    if not ctx.violations:
        n.corrupt(ctx, gr, 522, 28, 1); n.corrupt(ctx, gr, 526, 4, 1); n.corrupt(ctx, gr, 258, 2, drop=True)
    ctx.assumptions = n.ASSUME
