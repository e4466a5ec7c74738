import ubxsbp as x, ubxgen as u, vf, struct
M32 = 2**32
def v24(r):
    return r.choice((0, 1, 0xffffff, 0x800000, 0x7fffff, 0x400000, 0x3fffff, 0x4ccccd, r.randrange(2**24), r.randrange(2**24), r.randrange(5000), 2**24 - r.randrange(1, 5000)))
def meas_history(r, n):
    """a vehicle's odometer: calibrated tags that wrap, jump or stand still; four wheels and a speed"""
    t = r.choice((0, 1000, M32 - 1200, M32 - 300, x.WEEK - 500, 2 * x.WEEK - 400, r.randrange(M32)))
    wheels = {k: r.choice((0, 0x3fffff, 0x3ffff0, r.randrange(2**22))) for k in (6, 7, 8, 9, 10)}
    out = []
    for _ in range(n):
        t += r.choice((0, 1, 20, 100, 100, 500, 999, 1000, 1001, 1002, 5000, -1, -100) if r.random() < 0.3 else (20, 50, 100, 200))
        d = []
        for _ in range(r.choice((0, 1, 1, 2, 4, 5, 5, 9))):
            k = r.choice((6, 7, 8, 9, 10, 11, 11, 5, 12, 13, 14, 16, 0, 63))
            if k in wheels:
                wheels[k] = (wheels[k] + r.choice((0, 1, 7, 100, 1000))) % 2**22
                v = wheels[k] | r.choice((0, 0, 1, 1, r.choice((0, 1)))) << 23 | r.choice((0, 0, 1)) << 22
            else: v = v24(r)
            d.append((k, v))
        out.append(x.esf_meas(d, t, valid=r.random() < 0.93, r=r, tag=r.randrange(M32)))
        if r.random() < 0.05: t = r.randrange(M32)       # a reset
    return out
def raw_history(r, n, t=None):
    # the IMU time is 50 ms before the sample: never start below that
    t = r.choice((60, 1000, M32 - 1200, M32 - 300, x.WEEK - 500, r.randrange(60, 2**31), r.randrange(60, M32 - 10**6))) if t is None else t
    tag = r.choice((0, 0xfff000, 0xffff00, r.randrange(2**24)))
    out = []
    for _ in range(n):
        t += r.choice((0, 1, 10, 100, 999, 1000, 1001, 5000, -1) if r.random() < 0.2 else (10, 20, 50, 100))
        if t % M32 < 60: t += 100
        d = []
        for _ in range(r.choice((1, 1, 2, 5, 10))):
            ax = list(x.IMU)
            if r.random() < 0.5: r.shuffle(ax)
            k = r.random()
            if k < 0.08: ax.pop(r.randrange(6))
            elif k < 0.14: ax.insert(r.randrange(6), r.choice(ax))
            elif k < 0.2: ax.insert(r.randrange(6), r.choice((0, 1, 6, 11, 15, 19, 255, 8)))
            if r.random() < 0.6: ax.insert(r.randrange(len(ax) + 1), x.GT)
            for a in ax: d.append((a, v24(r) if a != x.GT else r.choice((0, 2300, 8699, 8700, 8701, 2**24 - 4100, 2**24 - 4099, 2**24 - 4101, r.randrange(9000), 2**24 - r.randrange(5000), v24(r))), tag))
            tag = (tag + r.choice((0, 1, 255, 256, 400))) % 2**24
        out.append(x.esf_raw(d[:128], t))
        if r.random() < 0.04: t = r.randrange(60, M32)
    return out
def full(v=None, tag=0, gt=None):
    return [(a, 100 + a if v is None else v, tag) for a in x.IMU] + ([(x.GT, gt, tag)] if gt is not None else [])
def run(ctx):
    r = ctx.rng
    ctx.model_check("MC_UbxEsf", cfg_text=open(vf.SPEC + "/MC_UbxEsf.cfg").read().replace("Depth = 4", "Depth = %d" % (3 if ctx.quick else 4)),
                    need_actions=("Measure",), timeout=800)
    exe = ctx.build("ubx_drv", x.SRCS())
    scen, labels = [], []
    def add(label, frames, **k):
        b = b"".join(frames)
        scen.append(x.scen(b, x.cuts(r, len(b)), **k)); labels.append(label)
    n = 1 if ctx.quick else 20
    for _ in range(60 * n): add("odometer history", meas_history(r, r.randrange(2, 25)))
    for _ in range(40 * n): add("IMU history", raw_history(r, r.randrange(1, 12)))
    for _ in range(10 * n): add("both", [f for p in zip(meas_history(r, 12), raw_history(r, 12)) for f in p])
    # each source: first count, up, down, wrap up, wrap down
    for k in (6, 7, 8, 9, 10):
        seq = [5, 10, 10, 3 | 1 << 23, 2**22 - 2, 1, 2 | 1 << 22, (2**22 - 3) | 1 << 23, 7 | 1 << 23, 2**21]
        add("wheel %d" % k, [x.esf_meas([(k, v)], 1000 + 100 * i) for i, v in enumerate(seq)])
    add("five wheels apart", [x.esf_meas([(k, (1000 * k + 3 * i) | (i % 2) << 23) for k in (6, 7, 8, 9)], 1000 + 50 * i) for i in range(6)])
    # gaps
    for gap in (0, 1, 999, 1000, 1001, 1002, 2**31 - 1, 2**31, M32 - 1001, M32 - 1):
        for t0 in (5000, M32 - 500):
            add("odometer gap %d" % gap, [x.esf_meas([(11, 77), (8, 5)], t0), x.esf_meas([(11, 78), (8, 6)], t0 + gap),
                                          x.esf_meas([(11, 79), (8, 7)], t0 + gap + 100), x.esf_meas([(11, 80), (8, 8)], t0 + gap + 200)])
            if gap < 2**31: add("IMU gap %d" % gap, [x.esf_raw(full(gt=2500), t) for t in (t0, t0 + gap, t0 + gap + 100, t0 + gap + 200) if t % M32 >= 60])
    # how often auxiliary data is sent, and a burst within a frame
    add("auxiliary data", [x.esf_raw([y for j in range(10) for y in full(tag=j * 100, gt=2000 + 10 * i)], 10000 + 100 * i) for i in range(5)])
    add("auxiliary data one by one", [x.esf_raw(full(tag=3, gt=2000 + 10 * i if i % 3 else None), 10000 + 10 * i) for i in range(45)])
    # scaling and clamping of every axis
    for a in x.IMU:
        fr = []
        for v in (0, 1, 2, 3, 100, 511, 512, 513, 40181, 40182, 40183, 511968, 511999, 512000, 512001, 0x7fffff, 0x800000, 0xffffff, 2**24 - 511999, 2**24 - 512000, 2**24 - 512001, r.randrange(2**24)):
            fr.append(x.esf_raw([(b, v if a == b else 7, 9) for b in x.IMU], 10000 + 10 * len(fr)))
        add("axis %d" % a, fr)
    for v in (0, 2299, 2300, 2301, 8698, 8699, 8700, 8701, 10000, 2**23 - 1, 2**24 - 1, 2**24 - 4098, 2**24 - 4099, 2**24 - 4100, 2**24 - 4101, 2**23):
        add("temperature %d" % v, [x.esf_raw(full(gt=v), 10000), x.esf_raw(full(gt=v), 10010)] + [x.esf_raw(full(gt=v), 10020 + i * 10) for i in range(20)])
    for t in (60, 1000, x.WEEK + 20, x.WEEK + 40, x.WEEK + 60, 2 * x.WEEK + 1000, M32 - 1):
        for tag in ((0, 0), (0, 256), (0xffff00, 0x100), (100, 99 + 2**24 - 200)):
            add("IMU time %d" % t, [x.esf_raw([(b, 3, tag[0]) for b in x.IMU] + [(b, 4, tag[1] % 2**24) for b in x.IMU], t)])
    # damaged contents
    for cut in range(0, 5):
        f = x.esf_raw(full(), 1000)
        p = f[6:-2]; add("IMU frame not whole", [u.frame(u.RAW, p[:len(p) - cut]), f])
    for extra in (1, 2, 30):
        add("count beyond the payload", [x.esf_meas([(11, 5)], 1000, n=extra + 1), x.esf_meas([(11, 6)], 1100)])
    g = ctx.conform(exe, scen, "Trace_UbxSbp", labels=labels)
    kinds = {}
    for t in g:
        for e in t[1]:
            for o in e.get("outs", []): kinds[o["k"]] = kinds.get(o["k"], 0) + 1
    ctx.extra["sbp_messages"] = kinds
    ctx.samples = [{"scenario": labels[i], "first": str(g[i][1][1])[:300]} for i in range(0, len(g), max(1, len(g) // 4))]
    if not ctx.violations:
        for k in ("Odometry", "Wheeltick", "ImuRaw", "ImuAux"):
            if kinds.get(k, 0) < 50: raise vf.MachineryError("hardly any %s: %s" % (k, kinds))
        i = labels.index("wheel 8")
        def mut(t): t[3]["outs"][0]["f"][3][0] += 1; return t
        ctx.self_test("Trace_UbxSbp", g[i][1], mut)
        def mut2(t): t[1]["outs"][1]["f"][1][0] ^= 4; return t
        ctx.self_test("Trace_UbxSbp", g[labels.index("auxiliary data")][1], mut2)
    ctx.assumptions = ["the receiver has been up for at least 50 ms when it sends its first IMU sample (the constant the converter subtracts)",
                       "a tick counter moves by less than 2^22 between two readings"]
