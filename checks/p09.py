import ubxsbp as x, ubxgen as u, vf, struct
def run(ctx):
    r = ctx.rng
    exe = ctx.build("ubx_drv", x.SRCS())
    scen, labels = [], []
    def add(label, frames, **k):
        b = b"".join(frames)
        scen.append(x.scen(b, x.cuts(r, len(b)), **k)); labels.append(label)
    n = 1 if ctx.quick else 25
    for hnr in (0, 1):
        for _ in range(40 * n):
            # a history of everything that shares state: fixes, attitudes, satellites used
            add("navigation history, hnr %d" % hnr,
                [r.choice((x.pvt, x.pvt, x.hnr, x.att, x.att, x.vel))(r) for _ in range(r.randrange(3, 14))], hnr=hnr)
        # every fix type and flags byte
        for fix in (0, 1, 2, 3, 4, 5, 6, 7, 255):
            add("fix type %d" % fix, [f for fl in sorted({0, 1, 2, 3, 0x42, 0x82, 0xC2, 0x40, 0x80, 0xC0, 0xFF, r.randrange(256)})
                                      for f in (x.pvt(r, fix=fix, flags=fl), x.att(r), x.vel(r), x.hnr(r))], hnr=hnr)
        add("before any fix", [x.vel(r), x.hnr(r), x.att(r), x.hnr(r)], hnr=hnr)
    for k in list(range(0, 4)) + [62, 63, 64, 84, 85, 86, 99, 100]:
        add("NAV-SAT %d" % k, [x.sat(r, k), x.sat(r)])
    for k in [0, 1, 13, 14, 15, 27, 28, 29, 127, 128] + ([196, 197, 209, 210, 211, 224, 225, 255] if not ctx.quick else [210, 211, 225]):
        add("RAWX %d" % k, [x.rawx(r, k)] + ([x.rawx(r)] if k < 30 else []))
    for _ in range(30 * n):
        add("RAWX values", [x.rawx(r, r.randrange(1, 16), weird=r.random() < 0.5) for _ in range(3)], sender=r.choice((None, 0, 1, 65535, 4096)))
    # every GNSS and signal identifier
    allm = [(g, s) for g in range(8) for s in range(9)]
    for j in range(0, 72, 14):
        m = b"".join((lambda b: b[:20] + bytes((g, b[21], s)) + b[23:])(x.meas(r)) for g, s in allm[j:j + 14])
        k = len(allm[j:j + 14])
        add("signals", [u.frame(u.RAWX, x.f8(1000.0) + struct.pack("<HbBBB2x", 2200, 18, k, 1, 1) + m)])
    # the end of the week
    for t in (604799.9994, 604799.99951, 604799.9999, 604799.999999, 0.0, 0.0004, 0.0006):
        for wn in (1, 2200, 2047):
            add("week end", [x.rawx(r, 1, t=t, wn=wn)])
    # GNSS time offset needs a known week, observations, IMU times
    for _ in range(30 * n):
        msss = r.choice((1000, 5000000, r.randrange(2**31)))
        wk = r.choice((2100, 2200))
        base = r.randrange(604800)
        ev = []
        for _ in range(r.randrange(4, 12)):
            msss += r.choice((10, 100, 500)); base = (base + r.choice((0, 1, 30))) 
            if base >= 604800: base -= 604800; wk += 1
            raw = u.frame(u.RAW, struct.pack("<I", 0)[:0] + struct.pack("<I", msss) + struct.pack("<II", 5 << 24 | 77, 1000))
            t = base * 1000 + r.choice((0, 1, 500, 999))
            ev.append(r.choice((lambda: raw, lambda: x.status(r, t=t % x.WEEK, msss=msss + r.choice((0, 1, 40, -30))),
                                lambda: x.status(r, t=t % x.WEEK, fix=r.choice((3, 4)), flags=0xD, msss=msss),
                                lambda: x.rawx(r, r.choice((0, 1)), t=float(base), wn=r.choice((wk, wk, wk, 0)))))())
        add("time offset", ev)
    def offset(label, gnss_ms, obs_wn, obs_tow, imus, st_ms):
        add("time offset: " + label, [x.status(r, t=0, fix=3, flags=0xD)] + [x.rawx(r, 1, t=obs_tow, wn=obs_wn)] +
            [u.frame(u.RAW, struct.pack("<III", m & 0xffffffff, 5 << 24, 1)) for m in imus] +
            [x.status(r, t=gnss_ms, fix=4, flags=0xF, msss=st_ms & 0xffffffff), x.status(r, t=gnss_ms, fix=2, flags=0xF, msss=st_ms & 0xffffffff)])
    offset("plain", 345600123, 2200, 345600.0, [1000], 1500)
    offset("the week ends", 200, 2200, 604799.5, [1000], 1500)
    offset("observations of the next week", 604799900, 2201, 0.2, [1000], 1500)
    offset("long running", 1000, 2200, 1.0, [x.WEEK * 3 + 500], x.WEEK * 3 + 700)
    offset("local week ends", 1000, 2200, 1.0, [x.WEEK - 10], x.WEEK + 20)
    offset("local week ends, status first", 1000, 2200, 1.0, [x.WEEK + 60], x.WEEK - 5)
    offset("counter wraps", 1000, 2200, 1.0, [2**32 - 500, 2**32 + 100], 2**32 + 300)
    offset("counter wraps after the last sample", 1000, 2200, 1.0, [2**32 - 500], 2**32 + 300)
    offset("counter wrapped twice", 1000, 2200, 1.0, [2**32 - 500, 2**32 + 100, 2**32 + 1000], 2**32 + 900)
    g = ctx.conform(exe, scen, "Trace_UbxSbp", labels=labels)
    kinds = {}
    for x_ in g:
        for e in x_[1]:
            for o in e.get("outs", []): kinds[o["k"]] = kinds.get(o["k"], 0) + 1
    ctx.extra["sbp_messages"] = kinds
    ctx.samples = [{"scenario": labels[i], "first": str(g[i][1][1])[:300]} for i in range(0, len(g), max(1, len(g) // 4))]
    need = {"Obs", "PosLlh", "OrientEuler", "VelEcef", "SvAzEl", "MeasurementState", "GnssTimeOffset"}
    if not ctx.violations:
        if not need <= set(kinds): raise vf.MachineryError("never seen: %s" % (need - set(kinds)))
        i = next(i for i, l in enumerate(labels) if l == "RAWX 14")
        def mut(t): t[1]["outs"][0]["f"][6][1] ^= 1; return t
        ctx.self_test("Trace_UbxSbp", g[i][1], mut)
