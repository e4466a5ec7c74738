import sbp2rtcm as q
def run(ctx):
    r, n = ctx.rng, 1 if ctx.quick else 16
    scen, labels = [], []
    def add(l, mode, steps): scen.append(q.scen(mode, steps)); labels.append(l)
    for k in q.EPH:
        for _ in range(30 * n): add("contents of %s" % k, "api", q.settings(None, r.choice((17, 18, 18)) if k == "glo" and 0 else 18) + [q.eph(r, k) for _ in range(5)])
        for i in range({"gps": 16, "bds": 16, "glo": 16, "gal": 126}[k]): add("accuracy %d of %s" % (i, k), "api", q.settings(None, 18) + [q.eph(r, k, i=i)])
        for h in range(256 if k in ("bds", "glo") else 64): add("health %d of %s" % (h, k), "api", q.settings(None, 18) + [q.eph(r, k, health=h)])
        for c in range(0, 256):     # the signal it is for decides whether it is sent
            if r.random() < (0.3 if ctx.quick else 1): add("signal %d of %s" % (c, k), "api", q.settings(None, 18) + [q.eph(r, k, code=c)])
    for s in list(range(0, 5)) + [7, 63, 127, 255]: add("source %d" % s, "api", [q.eph(r, "gal", source=s)])
    for leap in (None, -3, 0, 17, 18, 19, 30):
        for _ in range(4 * n): add("leap second %s" % leap, "api", q.settings(None, leap) + [q.eph(r, "glo", leap=leap or 0) for _ in range(6)])
    for d in range(96): add("time of day %d" % d, "api", q.settings(None, 18) + [q.S(q.T["glo"], 1, q.eph_glo(r)[:2] + ((900 * d + 86400 * r.randrange(7) + 18 + off) % 604800).to_bytes(4, "little") + b"\x34\x08" + q.eph_glo(r)[8:]) for off in (0,)])
    for m in ("conv", "main"):
        for _ in range(10 * n): add("through %s" % m, m, [q.eph(r) for _ in range(6)])
    ms = q.recorded(ctx, "/rtcm3tosbp/test/data/igseph.sbp", (137, 138, 139, 141)) + q.recorded(ctx, "/gnss_converters/test/data/nmea.sbp", (137, 138, 139))
    ms = [m for m in ms if m[0] != 137 or m[2][0] > 5]
    for _ in range(20 * n): add("recorded ephemerides", "api", q.settings(None, 18) + [q.S(*m) for m in r.sample(ms, 8)])
    g = q.check(ctx, scen, labels, {1019: 100, 1020: 100, 1042: 100, 1045: 50, 1046: 50})
    if not ctx.violations:
        q.corrupt(ctx, g, 1019, q.flip(30, 0)); q.corrupt(ctx, g, 1020, q.flip(20, 5)); q.corrupt(ctx, g, 1042, q.flip(50, 1)); q.corrupt(ctx, g, 1046, q.flip(40, 1)); q.corrupt(ctx, g, 1045, q.drop)
    ctx.assumptions = q.ASSUME + ["ephemeris values lie in the ranges of the RTCM fields, accuracies and fit intervals in their tables"]
