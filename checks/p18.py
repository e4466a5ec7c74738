import r2sx as e, rtcm2sbp as q, rtcmgen as g
def run(ctx):
    r, n = ctx.rng, 40 if ctx.quick else 700
    scen, labels = [], []
    for t in g.EPHW:
        for i in range(n):
            wn, s = e.times(r)
            scen.append(q.scen(q.frame(q.eph(r, t)), [], 0, time=(wn, s) if i % 6 else None)); labels.append("ephemeris %d" % t)
        for i in range(n // 5):     # several, and cut off
            wn, s = e.times(r); out = b""
            for _ in range(3):
                u = r.choice(list(g.EPHW)); b = q.eph(r, u)
                out += q.frame(b if r.random() < 0.8 else b[:r.randrange(2, len(b))])
            scen.append(q.scen(out, [], 0, time=(wn, s))); labels.append("ephemerides")
        for h in range(64) if t == 1019 else ():
            scen.append(q.scen(q.frame(q.eph(r, t, health=h)), [], 0, time=(2100, 5001))); labels.append("health %d" % h)
        for u in range(16):
            scen.append(q.scen(q.frame(q.eph(r, t, ura=u)), [], 0, time=(2100, 5001))); labels.append("accuracy %d of %d" % (u, t))
    for iodc in range(0, 1024, 8 if ctx.quick else 1):
        scen.append(q.scen(q.frame(q.eph(r, 1019, iodc=iodc, fit=iodc & 8)), [], 0, time=(2100, 5001))); labels.append("iodc %d" % iodc)
    if not ctx.quick:
        for t in g.EPHW:        # every bit of every message alone
            for k in range(12, len(q.eph(r, t)) * 8):
                b = bytearray(q.eph(r, t)); b[k // 8] ^= 128 >> k % 8
                scen.append(q.scen(q.frame(bytes(b)), [], 0, time=(2100, 5001))); labels.append("bit %d of %d" % (k, t))
    w = ("EphGps", "EphGal", "EphBds", "EphGlo", "EphQzss")
    gr = e.check(ctx, scen, labels, {k: 15 for k in w}, reals=0 if ctx.quick else 5)
    if not ctx.violations:
        for k in w: e.corrupt(ctx, gr, k, r.choice((0, 2, 8)))
    ctx.assumptions = e.ASSUME + ["times of ephemeris and clock lie within the week"]
