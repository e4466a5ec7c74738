import ubxsbp as x, ubxgen as u, vf, struct
def frame_of(r, kind, sat, k, iod, **o):
    if kind == "gps": return x.sfrbx(0, sat, x.gps_words(r, k, iod, **o))
    if kind == "gal": return x.sfrbx(2, sat, x.gal_words(r, k, iod, **o))
    if kind == "bds": return x.sfrbx(3, sat, x.bds_words(r, k, iod))
    if kind == "glo": return x.sfrbx(6, sat, x.glo_words(r, k, iod, **o), freq=r.choice((0, 7, 13, 6, 255)))
NP = {"gps": 3, "bds": 3, "gal": 5, "glo": 5}
SATS = {"gps": (1, 2, 31, 32), "bds": (6, 7, 35, 59), "gal": (1, 2, 35, 36), "glo": (1, 2, 27, 28)}
def leap(r, ok=True): return x.rawx(r, 0, t=1000.0, wn=2200, rec=1 if ok else 0, leap=18)
def history(r, kind, n):
    """satellites interleaved, issues changing, pieces lost, repeated and out of order"""
    sats = r.sample(SATS[kind], r.choice((1, 2, 2, 3)))
    cur = {s: [r.choice((1, 5, 254)), 0] for s in sats}
    sow = {s: r.choice((0, 600, 604788, 604794, r.randrange(100000) * 6)) for s in sats}
    out = [leap(r, r.random() < 0.8)] if kind == "glo" else []
    order = r.random() < 0.7
    for _ in range(n):
        s = r.choice(sats); iod, nxt = cur[s]
        k = (nxt % NP[kind]) + 1 if order and r.random() < 0.85 else r.randrange(0, 8)
        cur[s][1] = k % NP[kind] if k <= NP[kind] else cur[s][1]
        if r.random() < 0.08: cur[s][0] = (iod + 1) % 256
        if kind == "bds":
            if k == 1 and r.random() < 0.8: sow[s] = (sow[s] + 30) % 604800 if sow[s] < 604800 else 0
            v = sow[s] + 6 * (k - 1) if r.random() < 0.93 else r.choice((604800, 700000, 0, sow[s]))
            out.append(frame_of(r, kind, s, k, min(v, 2**20 - 1)))
        elif kind == "gal": out.append(frame_of(r, kind, s, k, cur[s][0], gsat=r.choice((None, s, s))))
        else: out.append(frame_of(r, kind, s, k, cur[s][0]))
        if r.random() < 0.03: out.append(leap(r, r.random() < 0.5) if r.random() < 0.5 else frame_of(r, r.choice(("gps", "gal", "bds", "glo")), r.choice((1, 2, 6, 27)), r.randrange(6), 5))
    return out
def run(ctx):
    r = ctx.rng
    cfg = open(vf.SPEC + "/MC_UbxNav.cfg").read()
    ctx.model_check("MC_UbxNav", cfg_text=cfg.replace("Depth = 5", "Depth = %d" % (4 if ctx.quick else 5)), need_actions=("Receive",), timeout=800)
    ctx.model_check("MC_UbxNav", cfg_text=cfg.replace("Depth = 5", "Depth = %d" % (6 if ctx.quick else 8)).replace("{1, 2}", "{2}"),
                    need_actions=("Receive",), timeout=800)
    exe = ctx.build("ubx_drv", x.SRCS())
    scen, labels = [], []
    def add(label, frames, **k):
        b = b"".join(frames)
        scen.append(x.scen(b, x.cuts(r, len(b)), **k)); labels.append(label)
    n = 1 if ctx.quick else 20
    for kind in ("gps", "bds", "gal", "glo"):
        for j in range(40 * n):
            add(kind + " history", history(r, kind, r.randrange(4, 30)),
                fails=() if j % 3 or kind == "bds" else [c for c in range(1, 8) if r.random() < 0.4], sender=r.choice((None, None, 7)))
        p = NP[kind]
        pre = [leap(r)] if kind == "glo" else []
        pieces = lambda s, iod, ks=None: [frame_of(r, kind, s, k, iod if kind != "bds" else iod * 6 + 6 * (k - 1)) for k in (ks or range(1, p + 1))]
        add(kind + " complete", pre + pieces(6, 9) + pieces(6, 9))
        add(kind + " backwards", pre + pieces(6, 9, list(range(p, 0, -1))))
        add(kind + " two satellites", pre + [f for z in zip(pieces(6, 9), pieces(7, 9)) for f in z])
        for k in range(1, p + 1):   # one piece of another issue in between, then the right one
            ps = pieces(6, 9)
            add(kind + " odd one out", pre + ps[:k - 1] + pieces(6, 10, [k]) + ps[k:] + pieces(6, 9, [k]) + pieces(6, 9))
            add(kind + " piece missing", pre + ps[:k - 1] + ps[k:] + pieces(6, 10) + pieces(6, 10))
            add(kind + " decoder fails", pre + ps + pieces(6, 9, [k]) + ps, fails=() if kind == "bds" else [1, 3])
        for s in (0, 1, 5, 6, 28, 29, 32, 33, 36, 37, 58, 59, 60, 63, 64, 65, 119, 120, 158, 159, 255):
            add(kind + " satellite %d" % s, pre + pieces(s, 9))
        full = {"gps": 10, "bds": 10, "gal": 9, "glo": 4}[kind]
        for m in range(0, 11):
            mk = lambda k: (pieces(6, 9, [k])[0])
            fr = []
            for k in range(1, p + 1):
                f = mk(k); w = list(struct.unpack("<%dI" % full, f[14:14 + 4 * full])) + [r.randrange(2**32) for _ in range(10)]
                fr.append(x.sfrbx(f[6], 6, w[:m]))
            add(kind + " %d words" % m, pre + fr + fr)
    for k in range(8): add("gps subframe number %d" % k, [x.sfrbx(0, 5, x.gps_words(r, j, 3)) for j in (1, 2, k, 3)] )
    for pre in (138, 139, 0x74, 255, 0): add("gps preamble", [x.sfrbx(0, 5, x.gps_words(r, j, 3, pre=pre if j == 2 else 139)) for j in (1, 2, 3, 2)])
    for how in (0, 1, 100798, 100799, 100800, 100801, 0x1ffff): add("gps hand-over word %d" % how, [x.sfrbx(0, 5, x.gps_words(r, j, 3, how=how)) for j in (1, 2, 3, 1)] + [x.sfrbx(0, 5, x.gps_words(r, 1, 3, how=77))])
    for ev, od in ((0, 0), (1, 1), (2, 1), (3, 0), (0, 1)): add("galileo pages", [x.sfrbx(2, 5, x.gal_words(r, j, 3, even=ev if j == 2 else 0, odd=od if j == 2 else 1)) for j in (1, 2, 3, 4, 5, 2)])
    for bits in (0, 1): add("glonass idle", [leap(r)] + [x.sfrbx(6, 5, x.glo_words(r, j, 3, idle=bits if j == 3 else 0)) for j in (1, 2, 3, 4, 5, 3)])
    for k in (0, 6, 7, 8, 15): add("glonass string %d" % k, [leap(r)] + [x.sfrbx(6, 5, x.glo_words(r, j, 3)) for j in (1, 2, k, 3, 4, k, 5)])
    add("glonass, leap seconds late", [x.sfrbx(6, 5, x.glo_words(r, j, 3)) for j in (1, 2, 3, 4, 5)] + [leap(r), x.sfrbx(6, 5, x.glo_words(r, 2, 3))])
    add("glonass, leap seconds lost", [leap(r), leap(r, False)] + [x.sfrbx(6, 5, x.glo_words(r, j, 3)) for j in (1, 2, 3, 4, 5)] + [leap(r), x.sfrbx(6, 5, x.glo_words(r, 4, 3))])
    add("glonass superframes", [leap(r)] + [x.sfrbx(6, 5, x.glo_words(r, j, 3 + (j > m))) for m in range(1, 5) for j in (1, 2, 3, 4, 5)])
    # SBAS
    for t in (0, 1, 999, 1000, 1119, 1120, 1121, 5000, x.WEEK - 1, x.WEEK, x.WEEK + 1, 2**32 - 1):
        add("sbas time %d" % t, [x.pvt(r, t=t, fix=3), x.sfrbx(1, 131, x.sbas_words(r)), x.hnr(r), x.sfrbx(1, 120, x.sbas_words(r))])
    add("sbas before any time", [x.sfrbx(1, 131, x.sbas_words(r)), x.pvt(r), x.sfrbx(1, 131, x.sbas_words(r))])
    for j in range(24): add("sbas parity", [x.pvt(r, t=9000), x.sfrbx(1, 131, x.sbas_words(r, bad=1 << j))])
    for pre in (0, 83, 84, 154, 155, 198, 255, 139): add("sbas preamble", [x.pvt(r, t=9000), x.sfrbx(1, 131, x.sbas_words(r, pre=pre))])
    for m in range(0, 11): add("sbas words", [x.pvt(r, t=9000), x.sfrbx(1, 131, (x.sbas_words(r) + [5, 6, 7])[:m])])
    for s in (0, 1, 32, 119, 120, 121, 157, 158, 159, 160, 183, 255): add("sbas satellite", [x.pvt(r, t=9000), x.sfrbx(1, s, x.sbas_words(r))])
    for _ in range(20 * n):
        f = []
        for _ in range(8):
            w = x.sbas_words(r, n=r.choice((8, 9)))
            if r.random() < 0.3: w[r.randrange(8)] ^= 1 << r.randrange(32)
            f += [r.choice((x.pvt, x.hnr))(r), x.sfrbx(1, r.randrange(118, 161), w)]
        add("sbas", f)
    for gn in (4, 5, 7, 255): add("another system", [x.sfrbx(gn, 5, x.gps_words(r, j, 3)) for j in (1, 2, 3)])
    for cut in (1, 4, 8): add("subframe cut off", [(lambda f: u.frame(u.SFRBX, f[6:-2 - cut]))(x.sfrbx(0, 5, x.gps_words(r, j, 3))) for j in (1, 2, 3)])
    g = ctx.conform(exe, scen, "Trace_UbxSbp", labels=labels)
    kinds = {}
    for t in g:
        for e in t[1]:
            for o in e.get("outs", []): kinds[o["k"]] = kinds.get(o["k"], 0) + 1
    ctx.extra["messages"] = kinds
    ctx.samples = [{"scenario": labels[i], "events": len(g[i][1])} for i in range(0, len(g), max(1, len(g) // 5))]
    if not ctx.violations:
        for k in ("Navgps", "Navbds", "Navgal", "Navglo", "EphGps", "EphBds", "EphGal", "EphGlo", "SbasRaw"):
            if kinds.get(k, 0) < 15: raise vf.MachineryError("hardly any %s: %s" % (k, kinds))
        def mut(t):
            o = next(o for e in t for o in e.get("outs", []) if o["k"] == "Navgps"); o["f"][40][0] ^= 1; return t
        ctx.self_test("Trace_UbxSbp", g[labels.index("gps complete")][1], mut)
        def mut2(t):
            for e in t:
                if e.get("outs"): e["outs"] = e["outs"][:1]
            return t
        ctx.self_test("Trace_UbxSbp", g[labels.index("gal complete")][1], mut2)
    ctx.assumptions = ["the navigation message decoders belong to libswiftnav, which is absent here: a stand-in answers with a fixed ephemeris; what reaches it and what is made of its answer is checked",
                       "QZSS and other systems' subframes are not collected"]
