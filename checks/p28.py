import itertools
import nmea as n
SIX = "uptvda"
def six(r, order, wn, tow, i=11):
    m = {"u": lambda: n.utc(r, n.UTC_TIME + i, tow), "p": lambda: n.pos(r, n.POS + i, tow), "t": lambda: n.msg(n.GPS_TIME + i, tow, wn), "v": lambda: n.vel(r, n.VEL + i, tow), "d": lambda: n.dops(r, tow),
         "a": lambda: n.age(r, tow), "h": lambda: n.hdg(r, tow), "e": lambda: n.euler(r, tow), "o": lambda: n.observations(r, wn, tow, 3)[0]}
    return [m[c]() for c in order]
RATE = ((1, 1, 1000), (2, 1, 500), (5, 1, 200), (10, 1, 100), (20, 1, 50), (25, 1, 40), (50, 1, 20), (1, 5, 5000), (1, 10, 10000), (1, 2, 2000), (4, 1, 250), (8, 1, 125), (100, 1, 10), (1, 60, 60000))
def run(ctx):
    r, q = ctx.rng, ctx.quick
    n.models(ctx)
    scen, labels = [], []
    def add(label, mode, ops, **k): scen.append(n.line(mode, ops, **k)); labels.append(label)
    for mode in "GBF":
        for log in n.histories(ctx, mode, True, 60 if q else 600, 30): add("tidy history", mode, n.concrete(r, mode, log))
        for log in n.histories(ctx, mode, False, 150 if q else 1500, 40): add("untidy history", mode, n.concrete(r, mode, log))
        for log in n.histories(ctx, mode, False, 20 if q else 200, 40): add("untidy history across a week", mode, n.concrete(r, mode, log, 151200000))
    # an epoch's messages in every order
    orders = list(itertools.permutations(SIX))
    r.shuffle(orders)
    for k in range(0, len(orders), 12):
        i, out = r.choice((0, 11)), []
        for j, o in enumerate(orders[k:k + 12]):
            o = list(o)
            if r.random() < .7: o.insert(r.randrange(len(o) + 1), "o")
            if r.random() < .5: o.insert(r.randrange(len(o) + 1), "h")
            if r.random() < .5: o.insert(r.randrange(len(o) + 1), "e")
            if r.random() < .1: o.pop(r.randrange(len(o)))
            if r.random() < .2: o.append(r.choice(o))
            out += six(r, o, 2000, 300000 + 100 * j, i)
        add("orders", "G", out)
    for k in range(40 if q else 400):      # epochs one within the other
        t, out = 100 * r.randrange(1, 100000), []
        a, b = six(r, r.sample(SIX + "heo", 9), 2000, t), six(r, r.sample(SIX + "heo", 9), 2000, t + 100)
        while a or b: out.append((a if a and (not b or r.random() < .65) else b).pop(0))
        add("epochs interleaved", r.choice("GGB"), out)
    # the fused groups
    for k in range(60 if q else 600):
        mode, out, t = r.choice("BF"), n.settings(r), 100 * r.randrange(1, 1000000)
        for j in range(6):
            tow = t + 100 * j
            g = six(r, r.sample("utpv", 4) + (["e"] if r.random() < .7 else []), 2000, tow, 0)
            gn = six(r, r.sample(SIX + "ho", 8), 2000, tow) if r.random() < .8 else []
            g = [n.msg(n.GROUP)] + g + [n.meta(r, tow)]
            if r.random() < .15: del g[r.randrange(1, len(g) - 1)]
            if r.random() < .1: g.pop()
            if r.random() < .1: g.append(n.meta(r, tow))
            if j < 2 and r.random() < .5: g = []
            x = []
            while g or gn: x.append((g if g and (not gn or r.random() < .5) else gn).pop(0))
            out += x
        add("fused groups", mode, out)
    # rates
    for num, den, period in RATE:
        for k in range(3 if q else 20):
            rates = " ".join("r%d,%d" % (s, r.choice((0, 1, 2, 3, 4, 5, 10, 20, 7))) for s in range(11) if r.random() < .9)
            t = period * r.randrange(1, 500000000 // period)
            if r.random() < .15: t = n.WEEK - 5 * period
            off = r.choice((0, 0, 0, period // 2 - 1, period // 2, period - 1, r.randrange(period)))
            mode, out = r.choice("GGB"), []
            for j in range(12):
                tow = t + period * j + off + (r.randrange(-2, 3) if r.random() < .3 else 0)
                if tow <= 0: tow = 1
                wn = 2000 + tow // n.WEEK; tow = tow % n.WEEK or 1
                out += n.epoch(r, mode, wn, tow) if r.random() < .2 else six(r, SIX + "heo", wn, tow)
            add("rates at %d/%d Hz" % (num, den), mode, out, rates=rates, freq="%d/%d" % (num, den))
    # observations in parts, some of them missing, again, late, or of another time
    for k in range(80 if q else 800):
        out, t = [], 100 * r.randrange(1, 1000000)
        for j in range(4):
            tow, s = t + 100 * j, []
            for d in (0,) if r.random() < .6 else (0, r.choice((-100, 100, -1, 1, 604800000 - tow))):
                tot = r.choice((1, 2, 3, 3, 4, 15, 0))
                p = list(range(max(tot, 1) if tot < 15 else 15))
                if r.random() < .3: del p[r.randrange(len(p))]
                if r.random() < .2: p.insert(r.randrange(len(p) + 1), r.randrange(16))
                s += [["o%d,%d,%d" % (2000 + (r.random() < .05), max(0, tow + d), 16 * (tot if r.random() < .9 else r.randrange(16)) + c) + "".join(",%d,%d,%d" % (*x, r.choice((0, 15, 0x80))) for x in n.sats(r, r.randrange(4)))
                       for c in p]]
            b = six(r, r.sample(SIX, 6), 2000, tow)
            lists = s + [b]
            x = []
            while any(lists):
                l = r.choice([y for y in lists if y]); x.append(l.pop(0))
            out += x
        add("observations", r.choice("GGGB"), out)
    for k in range(10 if q else 60):
        add("epochs", "G", sum((n.epoch(r, "G", 2000, 500000 + 100 * j, pmode=r.choice((None, None, 7))) for j in range(8)), []))
        add("epochs", "B", sum((n.epoch(r, "B", 2000, 500000 + 100 * j, pmode=r.choice((None, None, 7))) for j in range(6)), []))
    for l in n.segments(r, 4 if q else 20, 600): scen.append(l); labels.append("recorded")
    gr = n.check(ctx, "timing", scen, labels, {k: 300 for k in n.NAMES})
    if not ctx.violations:
        for k in ("GGA", "THS", "HDT", "ZDA"): n.corrupt(ctx, gr, "timing", k, None)
        n.corrupt(ctx, gr, "timing", "RMC", lambda f: ["GPGLL"] + f[1:])
    ctx.assumptions = n.ASSUME
