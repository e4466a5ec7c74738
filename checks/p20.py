import r2sx as e, rtcm2sbp as q
def run(ctx):
    r, n = ctx.rng, 1 if ctx.quick else 12
    scen, labels = [], []
    for b in e.ep(ctx, e.OK, 1) + e.ep(ctx, e.OK, 8, sim=130 * n): scen.append(e.other_script(r, b)); labels.append(e.label(b))
    def add(l, f, **k): scen.append(q.scen(f, [], 0, time=(2100, 5001), **k)); labels.append(l)
    for d in q.RCV: add("receiver %s" % d, q.frame(q.m1033(r, 7, rcv=d)))
    for c in q.CHARS:       # texts around the longest SBP can carry
        for l in range(244, 256):
            for pre in range(len(c.encode())):
                b = b"x" * pre; m = c.encode()
                b += m * ((l - pre) // len(m))
                if r.random() < (0.25 if ctx.quick else 1): add("text of %d" % len(b), q.frame(q.m1029(r, 9, b)))
    for m in range(16): add("biases %d" % m, b"".join(q.frame(q.m1230(r, 9)) for _ in range(3)))
    for sat in (0, 1, 18, 38, 39, 63):
        for pre in (83, 154, 198, 84, 0):
            ws = q.x.sbas_words(r, pre=pre, bad=0, n=9); bits = "".join(format(v, "032b") for v in ws)
            add("frame %d of %d" % (pre, sat), q.frame(q.ndf(r, 3, frames=[(3, sat, bits[:l]) for l in (256, 288)])))
    for _ in range(50 * n): add("raw frames of all kinds", q.frame(q.ndf(r, 3)))
    for _ in range(60 * n): scen.append(e.bias_history(r, r.choice((4, 8, 14)))); labels.append("biases over minutes")
    g = e.check(ctx, scen, labels, {"GloBiases": 80, "BasePosEcef": 30, "Log": 80, "SbasRaw": 20, "GpsTime": 20}, reals=0 if ctx.quick else 5)
    if not ctx.violations:
        e.corrupt(ctx, g, "GloBiases", 2); e.corrupt(ctx, g, "SbasRaw", 6); e.corrupt(ctx, g, "Log", 2); e.corrupt(ctx, g, "BasePosEcef", 0)
    ctx.assumptions = e.ASSUME + ["texts are valid UTF-8", "raw navigation frames of SBAS are 256 or 288 bits long, or of a length SBAS does not use"]
